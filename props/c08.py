"""C08: what was written completely before a crash loads in a later process to an equal object."""
import base64
import io
import json
import pickle
import random
import re

import numpy as np

from sim import common, facts, pure, runner, world

RULE_TEXT = ('A case is one simulated history of 2-4 processes (with different hash seeds, settings, definitions and '
             'their order) over one simulated disk: each process loads what is on the disk, several threads dump and '
             'load records under a schedule, writes may fail or be buffered, and a crash at a random byte ends it, '
             'leaving complete, torn and lost records.  Non-trivial: a record written by one process was loaded by '
             'another.')
QUICK_RUNS = 3000
QUICK_WALL = 55

NAMES = ['za', 'zb', 'zc', 'zd', 'ze']
CONSTS = ['Boltzmann_constant', 'electron_mass', 'natural_unit_of_velocity', 'Faraday_constant',
          'elementary_charge', 'Planck_constant', 'Bohr_radius', 'Avogadro_constant', 'atomic_mass_constant',
          'inverse_fine_structure_constant', 'Bohr_magneton', 'kelvin_hertz_relationship', 'electron_volt']
DTYPES = ['f8'] * 6 + ['f4', 'i8', 'i4', 'c16', 'c8', '>f8', '>i2', 'f2', 'u1', 'O', '?']
PROTOS = [0, 1, 2, 3, 4, 5]
IRRED = {'m': 'UnitLength', 'kg': 'UnitMass', 's': 'UnitTime', 'K': 'UnitTemperature', 'bit': 'UnitInformation'}


class Crash(BaseException):
    """the simulated process ends here"""


# ---------------------------------------------------------------- generation

def gen_units(rng):
    units = []
    labels = []
    for n in NAMES[:rng.choice([0, 1, 1, 2, 3, 4, 5])]:
        o = {'name': n, 'symbol': rng.choice([None, None, n + 'S']), 'u_symbol': rng.choice([None, None, 'µ' + n, 'µz']),
             'aliases': [n + 'A%d' % i for i in range(rng.choice([0, 0, 1, 2]))], 'cls': 'UnitQuantity',
             'doc': rng.choice([None, None, 'about ' + n])}
        if labels and rng.random() < 0.4:
            o['def'] = [rng.choice([2.0, 0.5, 3.0]), {rng.choice(labels): rng.choice([1, 1, 2, -1])}]
            if rng.random() < 0.3:
                o['def'][1]['s'] = rng.choice([-1, 1])
        else:
            b = rng.choice(['m', 'kg', 's', 'K', 'bit', 'J', 'V', 'Pa', 'mol'])
            o['def'] = [rng.choice([1.0, 2.0, 7.5, 1e-3, 1e6]), {b: 1}]
            if b in IRRED and rng.random() < 0.6:
                o['cls'] = IRRED[b]
            elif rng.random() < 0.3:
                o['def'][1] = {b: rng.choice([1, 2, -1]), rng.choice(['ft', 'h', 'degree']): rng.choice([1, -1])}
        r = rng.random()
        if r < 0.08:
            o['cls'], o['def'] = 'UnitCurrency', None
        units.append(o)
        labels.append(n)
        labels += o['aliases'] + ([o['symbol']] if o['symbol'] else [])
    return units


def gen_object(rng, units, depth=0, look=None):
    r = rng.random()
    user = [u['name'] for u in units]
    if depth < 2 and r < 0.15:
        n = rng.randint(0, 3)
        items = [gen_object(rng, units, depth + 1, look) for _ in range(n)]
        if items and rng.random() < 0.4:
            items.append({'t': 'again', 'i': rng.randrange(len(items))})
        return {'t': rng.choice(['list', 'tuple', 'dict', 'udict']), 'items': items}
    if r < 0.3:
        return {'t': 'u', 'l': rng.choice(user) if user and rng.random() < 0.6 else
                rng.choice(sorted(facts.FACT) + ['C:' + rng.choice(CONSTS), 'dimensionless'])}
    u = {}
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 4])):
        k = rng.random()
        if look and rng.random() < 0.7:
            l = rng.choice(look)        # different units that look alike
        elif k < 0.45 and user:
            l = rng.choice(user)
        elif k < 0.55:
            l = 'C:' + rng.choice(CONSTS)
        elif k < 0.68:
            l = rng.choice(sorted(world.COMPOUNDS) + (['X:%s/s' % rng.choice(user), 'X:%s**2*m' % rng.choice(user)]
                                                      if user else []))
        else:
            l = rng.choice(sorted(facts.FACT))
        u[l] = rng.choice([1, 1, 1, -1, 2, -2, 0.5, 3, 10, -0.5])
    if r < 0.36:
        return {'t': 'd', 'u': u}
    if r < 0.42:
        return {'t': 'x', 'l': rng.choice(sorted(world.COMPOUNDS))}
    sh = rng.choice(pure.SHAPES)
    dt = rng.choice(DTYPES)
    n = int(np.prod(sh)) if sh else 1
    s = {'t': 'q', 'u': u, 'sh': list(sh), 'dt': dt, 'o': rng.choice('CCCFSR'), 'seed': rng.randrange(1 << 30)}
    if rng.random() < 0.2:
        s['t'], s['dt'] = 'uq', rng.choice(['f8', 'f8', 'f8', 'f4', 'i8'])
        s['edt'] = rng.choice([None, None, '', 'f4', 'i8', 'f2'])
    return s


def gen_op(rng, nobj):
    r = rng.random()
    if r < 0.45:
        return {'op': 'dump', 'x': rng.randrange(nobj), 'proto': rng.choice(PROTOS),
                'how': rng.choice(['dump', 'dump', 'dumps', 'pickler']), 'buffer': rng.choice([0, 0, 16, 256, 8192])}
    if r < 0.85:
        o = {'op': 'load', 'x': rng.random(), 'how': rng.choice(['load', 'loads', 'loads']),
             'redump': rng.choice([None, None] + PROTOS)}
        k = rng.random()
        if k < 0.08:
            o['readerror'] = rng.randrange(400)
        elif k < 0.2:
            o['fault'] = [rng.choice(['interrupt', 'nomem']), common.step_at(rng, 3000)]
        elif k < 0.26:
            o['fault'] = ['alloc', common.alloc_at(rng, 60), rng.choice([1, 2, 1000])]
        return o
    if r < 0.93:
        return {'op': 'define', 'x': rng.random()}
    return {'op': 'lookup', 'x': rng.choice(NAMES + ['m', 'J', 'm*za', 'zb/zaS'])}


def generate(rng, tier):
    units = gen_units(rng)
    look = rng.choice(world.HOMOGRAPHS) if rng.random() < 0.12 else None
    objs = [gen_object(rng, units, look=look) for _ in range(rng.randint(1, 6))]
    if look:
        for a, b in (look, look[::-1]):
            u = {a: rng.choice([1, 1, 2, -1])}
            if rng.random() < 0.3:
                u[rng.choice(['m', 's', 'kg'])] = rng.choice([1, -1])
            for l in (a, b):
                objs.append({'t': 'q', 'u': {l if k == a else k: p for k, p in u.items()}, 'sh': [], 'dt': 'f8', 'o': 'C',
                             'seed': rng.randrange(1 << 30)})
    phases = []
    np_ = rng.choice([2, 2, 2, 3, 3, 4])
    for k in range(np_):
        ph = {'unicode': rng.random() < 0.3, 'home': rng.randrange(8), 'threads': []}
        ph['defaults'] = {facts.BASE[b][1]: rng.choice(facts.GROUPS[((b, 1),)])
                          for b in rng.sample(sorted(facts.BASE), rng.choice([0, 0, 1, 3]))}
        ph['preferred'] = [rng.choice(sorted(facts.FACT)) for _ in range(rng.choice([0, 0, 2]))]
        # which of the units it defines itself, before it does anything else, and in which order
        if k == 0:
            own = list(range(len(units)))
        else:
            own = [i for i in range(len(units)) if rng.random() < rng.choice([0, 0.5, 1])]
            if rng.random() < 0.4:
                rng.shuffle(own)
        ph['define'] = own
        ph['conflict'] = []
        if k and units and rng.random() < 0.15:
            u = rng.choice(units)
            l = rng.choice([u['name']] + ([u['symbol']] if u['symbol'] else []) + u['aliases'])
            ph['conflict'] = [[l, rng.choice([11.0, 13.0]), rng.choice(['m', 's', 'kg'])]]
        if k == 0:
            # enough on the disk to begin with
            prog = [{'op': 'dump', 'x': i, 'proto': rng.choice(PROTOS), 'how': rng.choice(['dump', 'dumps', 'pickler']),
                     'buffer': rng.choice([0, 0, 16, 256, 8192])} for i in range(len(objs))]
            ph['threads'].append(prog)
        for t in range(rng.choice([0, 1, 1]) if k == 0 else rng.choice([1, 1, 2, 3])):
            ph['threads'].append([gen_op(rng, len(objs)) for _ in range(rng.randint(1, 6))])
        ph['crash'] = rng.choice([None, rng.randrange(3000), rng.randrange(300)]) if k < np_ - 1 else None
        ph['enospc'] = rng.randrange(2000) if rng.random() < 0.1 else None
        ph['tail'] = rng.choice([0, 0, 0, 7, 64])
        phases.append(ph)
    plan = {'units': units, 'objs': objs, 'phases': phases, 'threads': [], 'sample': rng.randrange(1 << 30),
            'schedule': runner.make_schedule_spec(rng, 12)}
    plan['shrink'] = [['phases', k, 'threads', t] for k, p in enumerate(phases) for t in range(len(p['threads']))]
    plan['shrink'] += [['phases', k, 'conflict'] for k, p in enumerate(phases) if p['conflict']]
    return plan


# ---------------------------------------------------------------- objects

def define(u):
    pq = world.pq
    d = u['def']
    if d is not None:
        d = pq.Quantity(d[0], world.dims_object(d[1]))
    kw = {'doc': u['doc']} if u['doc'] else {}
    return getattr(pq, u['cls'])(u['name'], d, symbol=u['symbol'], u_symbol=u['u_symbol'], aliases=list(u['aliases']),
                                 **kw)


def labels_of(u):
    return [u['name']] + ([u['symbol']] if u['symbol'] else []) + u['aliases']


def array_of(s):
    rng = random.Random(s['seed'])
    n = int(np.prod(s['sh'])) if s['sh'] else 1
    dt = np.dtype(s['dt'])
    v = []
    for _ in range(n):
        x = rng.choice([float(rng.randint(0, 9)), rng.uniform(-10, 10), rng.uniform(0, 1)])
        if dt.kind in 'fc' and rng.random() < 0.08:
            x = rng.choice([float('inf'), float('-inf'), float('nan'), -0.0, 5e-8])
        if dt.kind == 'c':
            x = complex(x, rng.randint(-3, 3))
        elif dt.kind in 'iub':
            x = abs(int(x))
        elif dt.kind == 'O':
            x = rng.choice([x, int(x), int(x) * 10 ** 30])
        v.append(x)
    a = np.empty(n, dt)
    for i, x in enumerate(v):
        a[i] = x
    a = a.reshape(s['sh'])
    if s['o'] == 'F' and a.ndim:
        a = np.asfortranarray(a)
    elif s['o'] == 'S' and a.ndim:
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), dt)
        b[..., ::2] = a
        a = b[..., ::2]
    elif s['o'] == 'R':
        a.flags.writeable = False
    return a


def dims_of(u):
    return world.dims_object(u)


def build(s):
    pq = world.pq
    t = s['t']
    if t in ('list', 'tuple', 'dict', 'udict'):
        items = []
        for i in s['items']:
            items.append(items[i['i'] % len(items)] if i['t'] == 'again' and items else
                         build(i) if i['t'] != 'again' else 0)
        if t == 'tuple':
            return tuple(items)
        if t == 'dict':
            return dict(enumerate(items))
        if t == 'udict':
            return {(x if isinstance(x, (pq.UnitQuantity, pq.dimensionality.Dimensionality)) else i): i
                    for i, x in enumerate(items)}
        return items
    if t == 'u':
        return world.unit_object(s['l'])
    if t == 'x':
        return world.unit_object(s['l'])
    if t == 'd':
        return dims_of(s['u'])
    if t == 'q':
        return pq.Quantity(array_of(s), dims_of(s['u']))
    e = abs(array_of(dict(s, dt='f8', seed=s['seed'] + 1)))
    if s.get('edt') is None:
        e = np.nan_to_num(e)
    elif s['edt']:
        with np.errstate(all='ignore'):
            e = pq.Quantity(np.nan_to_num(e).astype(s['edt']), dims_of(s['u']))
    return pq.UncertainQuantity(array_of(s), dims_of(s['u']), e, dtype=s['dt'])


def mentions(s, units):
    """names of the user units that an object depends on"""
    out = set()
    byname = {}
    for u in units:
        for l in labels_of(u):
            byname[l] = u

    def label(l):
        if l.startswith('X:'):
            for n in re.findall(r'[A-Za-z_]+', l[2:]):
                label(n)
        elif l in byname and byname[l]['name'] not in out:
            u = byname[l]
            out.add(u['name'])
            for k in (u['def'] or [0, {}])[1]:
                label(k)

    def walk(s):
        for i in s.get('items', ()):
            walk(i)
        if 'l' in s:
            label(s['l'])
        for k in s.get('u', ()):
            label(k)
    walk(s)
    return out


def rendering(d):
    """what is rendered, up to the order of user-defined units"""
    out = []
    for on in (False, True):
        world.pq.markup.config.use_unicode = on
        texts = [str(d), d.string, d.unicode, d.latex, d.html]
        if sum(1 for u in d if 'z' in u.name or isinstance(u, world.pq.CompoundUnit)) > 1:
            texts = [''.join(sorted(t)) for t in texts]
        out.append(texts)
    return out


def describe(x, seen=None):
    """everything that has to be the same after loading, as JSON"""
    pq = world.pq
    seen = {} if seen is None else seen
    if id(x) in seen:
        return ['again', seen[id(x)]]
    if isinstance(x, (pq.Quantity, list, dict)):
        seen[id(x)] = len(seen)
    if isinstance(x, (list, tuple)):
        return [type(x).__name__, [describe(i, seen) for i in x]]
    if isinstance(x, dict) and not isinstance(x, pq.dimensionality.Dimensionality):
        return ['dict', [[describe(k, seen), describe(v, seen)] for k, v in x.items()],
                [x.get(k) is v or x.get(k) == v for k, v in x.items() if np.isscalar(v)]]
    if not isinstance(x, (pq.Quantity, pq.dimensionality.Dimensionality)):
        return ['value', repr(x)]
    if isinstance(x, np.ndarray) and not x.dtype.isnative:
        # numpy keeps the byte order in some protocols only
        x = x.astype(x.dtype.newbyteorder('='))
    with np.errstate(all='ignore'):
        d = [type(x).__module__ + '.' + type(x).__name__, world.canon(x)]
        dims = x if not isinstance(x, pq.Quantity) else x.dimensionality
        d.append(rendering(dims))
        d.append(world.canon(dims ** 2))
        if not isinstance(x, pq.Quantity):
            return d
        for f in (lambda: x * 2, lambda: x + x, lambda: x / pq.m, lambda: x == x, lambda: x.units,
                  lambda: x._reference, lambda: 3 * pq.kg * x, lambda: x[..., :1] if x.ndim else x):
            try:
                d.append(world.canon(f()))
            except Exception as e:
                d.append(world.canon_exc(e))
        if isinstance(x, pq.UnitQuantity):
            for on in (False, True):
                pq.markup.config.use_unicode = on
                t = [str(x), repr(x), x.name, x.symbol, x.u_symbol]
                d.append(t if x.name[:1] != 'z' else [sorted(i) for i in t])
            d.append(sorted(getattr(x, '_aliases', ())))
        if x.dtype == object:
            d.append([type(i).__name__ for i in np.asarray(x).flat])
    return d


def norm(x):
    return json.loads(json.dumps(x, default=str))


# ---------------------------------------------------------------- the simulated disk

class Disk:
    """files as what has reached the medium; a crash leaves the rest behind"""

    def __init__(self, ph):
        self.files = []         # [bytes, complete, spec index, expectation]
        self.left = ph['crash']
        self.full_at = ph['enospc']
        self.written = 0
        self.crashed = False
        self.stats = {}

    def count(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1


class File:

    def __init__(self, disk, rec, buffer):
        self.disk, self.rec, self.buffer, self.pending = disk, rec, buffer, b''

    def write(self, data):
        data = bytes(data)
        self.pending += data
        if len(self.pending) >= self.buffer:
            self.flush()
        return len(data)

    def flush(self):
        d = self.disk
        if d.crashed:
            raise Crash()
        data, self.pending = self.pending, b''
        if d.full_at is not None and d.written + len(data) > d.full_at:
            d.full_at = None
            d.count('disk full')
            self.rec['data'] += data[:max(0, len(data) // 2)]
            raise OSError(28, 'No space left on device')
        if d.left is not None and len(data) > d.left:
            self.rec['data'] += data[:d.left]
            d.written += d.left
            d.crashed = True
            d.count('crash')
            raise Crash()
        if d.left is not None:
            d.left -= len(data)
        d.written += len(data)
        self.rec['data'] += data

    def close(self):
        self.flush()
        self.rec['complete'] = True


class Reader:
    """a file to read from, which may fail"""

    def __init__(self, data, error):
        self.f, self.error = io.BytesIO(data), error

    def _check(self):
        if self.error is not None and self.f.tell() >= self.error:
            raise OSError(5, 'Input/output error')

    def read(self, n=-1):
        self._check()
        return self.f.read(n)

    def readline(self):
        self._check()
        return self.f.readline()

    def readinto(self, b):
        self._check()
        return self.f.readinto(b)


# ---------------------------------------------------------------- one process

def execute(plan, phase, carry):
    pq = world.pq
    ph = plan['phases'][phase]
    disk = Disk(ph)
    old = (carry or {}).get('files', [])
    for r in old:
        r['data'] = base64.b64decode(r['data'])
    units = plan['units']
    run = runner.Run({'threads': ph['threads'], 'schedule': plan['schedule'], 'warm': plan.get('warm')})
    world_labels = sorted(random.Random(plan['sample'] + phase).sample(sorted(world.LABELS), 25))

    # what this process does on its own
    clash = set()
    for l, f, b in ph['conflict']:
        pq.UnitQuantity(l, f * pq.unit_registry[b])
        clash.add(l)
    refused = {u['name'] for u in units if clash & set(labels_of(u))}
    grew = True
    while grew:
        grew = False
        for u in units:
            if u['name'] not in refused and refused & mentions({'u': (u['def'] or [0, {}])[1]}, units):
                refused.add(u['name'])
                grew = True
    defined = {}

    def defines(i):
        u = units[i]
        if u['name'] in refused:
            return False
        for n in sorted(mentions({'u': (u['def'] or [0, {}])[1]}, units)):
            j = next(k for k, v in enumerate(units) if v['name'] == n)
            if n not in defined and j != i:
                defines(j)
        defined[u['name']] = define(u)
        return True
    for i in ph['define']:
        if i < len(units):
            defines(i)
    pq.set_default_units(**ph['defaults'])
    pq.quantity.PREFERRED = [pq.unit_registry[l] for l in ph['preferred']]
    objs, expect = {}, {}
    for i, s in enumerate(plan['objs']):
        if not mentions(s, units) <= set(defined):
            continue
        if (carry or {}).get('expect', {}).get(str(i)):
            # a later process that has all of the units itself builds the same object
            objs[i] = build(s)
            got = norm(describe(objs[i]))
            if got != carry['expect'][str(i)]:
                run.violate('built-differently', 'object %s: %s, in the first process %s' % (
                    s, *differ(got, carry['expect'][str(i)])))
            continue
        objs[i] = build(s)
        expect[str(i)] = norm(describe(objs[i]))
    expect = dict((carry or {}).get('expect', {}), **expect)
    pq.markup.config.use_unicode = ph['unicode']
    before = {l: world.unit_facts(pq.unit_registry[l]) for l in world_labels}
    for n in defined:
        before[n] = world.unit_facts(pq.unit_registry[n])
    for l in clash:
        before[l] = world.unit_facts(pq.unit_registry[l])
    loaded = []
    attempts = {}

    def dump(o, x, i, proto):
        rec = {'data': b'', 'complete': False, 'i': i}
        disk.files.append(rec)
        f = File(disk, rec, o.get('buffer', 0))
        if o.get('how') == 'dumps':
            f.write(pickle.dumps(x, proto))
        elif o.get('how') == 'pickler':
            pickle._Pickler(f, proto).dump(x) if proto < 2 else pickle.Pickler(f, proto).dump(x)
        else:
            pickle.dump(x, f, proto)
        f.close()

    def load(o, rec):
        data = rec['data']
        if not rec['complete'] and ph['tail']:
            data += b'\0' * ph['tail']
        if o['how'] == 'load' or o.get('readerror') is not None:
            e = o.get('readerror')
            return pickle.load(Reader(data, e))
        return pickle.loads(data)

    def body(t, tid, prog):
        try:
            for i, o in enumerate(prog):
                if disk.crashed:
                    return
                n = o['op']
                if n == 'dump':
                    x = o['x'] % len(plan['objs'])
                    if x in objs:
                        r = run.call(t, i, o, lambda: dump(o, objs[x], x, o['proto']))
                        if r.exc is not None and not isinstance(r.exc, (Crash, OSError)):
                            run.violate('dump-failed', '%r of %s: %s' % (r, plan['objs'][x], str(r.exc)[:200]))
                        r.res = None
                elif n == 'load':
                    if not old:
                        continue
                    rec = old[int(o['x'] * len(old))]
                    r = run.call(t, i, o, lambda: load(o, rec))
                    judge(r, o, rec)
                    if r.exc is None and rec['complete'] and o['redump'] is not None and not disk.crashed:
                        q = run.call(t, i, {'op': 'redump', 'x': rec['i']},
                                     lambda: dump({'how': 'dump'}, r.res, rec['i'], o['redump']))
                        if q.exc is not None and not isinstance(q.exc, (Crash, OSError)):
                            run.violate('dump-failed', '%r of loaded %s: %s' % (q, plan['objs'][rec['i']], q.exc))
                    r.res = None
                elif n == 'define':
                    if units:
                        j = int(o['x'] * len(units))
                        if units[j]['name'] not in refused:
                            r = run.call(t, i, o, lambda: redefine(j))
                            if r.exc is not None:
                                run.violate('definition-refused', '%s: %r: %s' % (units[j], r, r.exc))
                            r.res = None
                elif n == 'lookup':
                    run.call(t, i, o, lambda: pq.unit_registry[o['x']])
        except Crash:
            return

    def redefine(j):
        for n in [n for n in NAMES if n in mentions({'u': (units[j]['def'] or [0, {}])[1]}, units)] + [units[j]['name']]:
            define(next(v for v in units if v['name'] == n))

    def judge(r, o, rec):
        s = plan['objs'][rec['i']]
        conflicts = bool(mentions(s, units) & refused)
        disturbed = r.fired or o.get('readerror') is not None
        kind = 'torn' if not rec['complete'] else 'conflicting' if conflicts else 'complete'
        attempts[kind] = attempts.get(kind, 0) + 1
        if r.exc is not None:
            if rec['complete'] and not conflicts and not disturbed:
                run.violate('load-failed', '%r of %s: %s' % (r, s, str(r.exc)[:200]))
            return
        if not rec['complete']:
            run.violate('incomplete-accepted', '%r: %d bytes of %s' % (r, len(rec['data']), s))
            return
        loaded.append((r, r.res, rec['i'], conflicts))

    run.go(body)
    if run.blocked():
        run.violate('blocked', run.blocked())
    for l, f in before.items():
        try:
            now = world.unit_facts(pq.unit_registry[l])
        except Exception as e:
            now = world.canon_exc(e)
        if now != f:
            run.violate('label-changed', '%s: %s, was %s' % (l, world.short(now), world.short(f)))
    if not run.violations and not run.inconclusive:
        # records that no thread happened to load
        if phase == len(plan['phases']) - 1 or not disk.crashed:
            for rec in old:
                try:
                    x = pickle.loads(rec['data'])
                except Exception as e:
                    if rec['complete'] and not mentions(plan['objs'][rec['i']], units) & refused:
                        run.violate('load-failed', 'in the end, %s: %s: %s' % (
                            plan['objs'][rec['i']], type(e).__name__, str(e)[:200]))
                else:
                    if rec['complete']:
                        loaded.append(('in the end', x, rec['i'], bool(mentions(plan['objs'][rec['i']], units) & refused)))
                    else:
                        run.violate('incomplete-accepted', 'in the end: %d bytes of %s' % (
                            len(rec['data']), plan['objs'][rec['i']]))
        for r, x, i, conflicts in loaded:
            if conflicts:
                continue
            got = norm(describe(x))
            want = expect[str(i)]
            if got != want:
                run.violate('differs', '%r of %s is %s; written was %s' % (r, plan['objs'][i], *differ(got, want)))
                break
            check_own(run, x, plan['objs'][i])
        # now every unit can be defined, with the same meaning
        for u in units:
            if u['name'] in refused:
                continue
            try:
                v = define(u)
            except Exception as e:
                run.violate('definition-refused', 'in the end %s: %s: %s' % (u, type(e).__name__, e))
                break
            for l in labels_of(u):
                w = pq.unit_registry[l]
                if not (w == v) or world.unit_facts(w)[4:] != world.unit_facts(v)[4:]:
                    run.violate('label-changed', '%s means %s, not %s' % (l, world.unit_facts(w), world.unit_facts(v)))
        for l, f in before.items():
            if world.unit_facts(pq.unit_registry[l]) != f:
                run.violate('label-changed', 'in the end %s: %s' % (l, world.short(world.unit_facts(pq.unit_registry[l]))))
    faults = dict(disk.stats)
    if phase:
        faults['restart'] = 1
    for k in ('torn', 'conflicting'):
        if attempts.get(k):
            faults[k + ' record'] = attempts[k]
    out = run.result(nontrivial=phase > 0 and bool(loaded),
                     extra={'faults': faults, 'records_loaded': len(loaded), 'processes': 1})
    files = [dict(r) for r in old + disk.files if r['complete'] or r['data']]
    if phase + 1 < len(plan['phases']) and not run.violations:
        for r in files:
            r['data'] = base64.b64encode(r['data']).decode()
        out['next'] = {'files': files[-40:], 'expect': expect}
    return out


def check_own(run, x, s):
    """a loaded unit is the unit that this process has under that name"""
    pq = world.pq
    if isinstance(x, pq.UnitQuantity) and not isinstance(x, (pq.UnitConstant, pq.CompoundUnit)):
        own = pq.unit_registry[x.name]
        if not (x == own) or hash(x) != hash(own) or x.dimensionality != own.dimensionality \
                or {own: 1}.get(x) != 1 or (x / own).dimensionality:
            run.violate('stranger', 'the loaded %r is not the unit %r of this process' % (x, own))
    elif isinstance(x, pq.dimensionality.Dimensionality) and 'u' in s:
        try:
            d = dims_of(s['u'])
        except Exception:
            return
        if x != d or d != x or hash(x) != hash(d) or {d: 1}.get(x) != 1 or x / d or len(x * d) != len(d):
            run.violate('stranger', 'the loaded %r is not what this process has as %r' % (x, d))
    elif isinstance(x, (list, tuple, dict)) and 'items' in s:
        items = [i for i in s['items'] if i['t'] != 'again']
        if s['t'] in ('list', 'tuple') and len(items) == len(x) or s['t'] == 'dict' and len(items) == len(x):
            for i, y in zip(items, x.values() if isinstance(x, dict) else x):
                check_own(run, y, i)
    elif isinstance(x, pq.Quantity) and not isinstance(x, pq.UnitQuantity):
        try:
            d = dims_of(s['u'])
        except Exception:
            return
        own = pq.Quantity(np.zeros(x.shape), d)
        with np.errstate(all='ignore'):
            for f in (lambda: x + own, lambda: own + x, lambda: x - own, lambda: np.maximum(x, own)):
                try:
                    y = f()
                except Exception as e:
                    run.violate('stranger', 'the loaded %r does not combine with %r of this process: %r' % (x, own, e))
                    return
                if y.dimensionality != d:
                    run.violate('stranger', 'the loaded %r combined with %r is %r' % (x, own, y))
                    return
        if x.dimensionality != d or (x / pq.Quantity(1.0, d)).dimensionality:
            run.violate('stranger', 'the units of the loaded %r are not those of this process, %r' % (x, d))


def differ(a, b, path=''):
    """the first place where two descriptions differ"""
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return differ(x, y)
    return world.short(a, 400), world.short(b, 400)
