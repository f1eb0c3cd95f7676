"""Background activity (churn) that properties run against, and its model."""
from . import facts, world
from .facts import FACT, GROUPS


def alloc_at(rng, span=100):
    """which of the numpy allocations of an operation fails; a conversion makes 50 to 200 of them"""
    r = rng.random()
    return rng.randint(1, 12) if r < 0.3 else rng.randint(1, span) if r < 0.8 else int(2 * span ** rng.random())


def step_at(rng, span=1500):
    """which of the lines that an operation executes is hit; a conversion has 700 to 3000 of them"""
    r = rng.random()
    return rng.randint(1, 60) if r < 0.3 else rng.randint(1, span) if r < 0.8 else int(2 * span ** rng.random())


def gen_churn(rng, kinds=('define', 'default', 'unicode', 'preferred', 'lookup'), tag=0):
    k = rng.choice(kinds)
    if k == 'define':
        l = rng.choice(sorted(FACT))
        n = 'zz%d_%d' % (tag, rng.randrange(6))
        return {'op': 'churn_define', 'name': n, 'factor': 2.0 + (hash_int(n) % 7), 'u': 'm',
                'symbol': rng.choice([None, 'q' + n]), 'aliases': rng.choice([[], [n + 's']])}
    if k == 'default':
        b = rng.choice(sorted(facts.BASE))
        labels = [l for l in GROUPS[((b, 1),)]]
        return {'op': 'churn_default', 'kw': {facts.BASE[b][1]: rng.choice(labels)},
                'system': rng.choice([None, None, None, 'SI', 'cgs'])}
    if k == 'unicode':
        return {'op': 'churn_unicode', 'on': rng.random() < 0.5}
    if k == 'preferred':
        return {'op': 'churn_preferred', 'list': [rng.choice(sorted(FACT)) for _ in range(rng.randint(0, 4))]}
    return {'op': 'churn_lookup', 'x': rng.choice(['m', 'kg*m/s**2', 'nosuchunit', 'J/mol', 'ft.lbf', 'zz0_1'])}


def hash_int(s):
    h = 0
    for c in s:
        h = (h * 131 + ord(c)) & 0xFFFFFF
    return h


def call_churn(o):
    pq = world.pq
    n = o['op']
    if n == 'churn_define':
        return pq.UnitQuantity(o['name'], o['factor'] * pq.unit_registry[o['u']], symbol=o['symbol'],
                               aliases=list(o['aliases']))
    if n == 'churn_default':
        return pq.set_default_units(system=o.get('system'), **o['kw'])
    if n == 'churn_unicode':
        pq.markup.config.use_unicode = o['on']
        return None
    if n == 'churn_preferred':
        pq.quantity.PREFERRED = [pq.unit_registry[l] for l in o['list']]
        return None
    if n == 'churn_lookup':
        return pq.unit_registry[o['x']]
    raise ValueError(n)


def si_value(x):
    """(plain array in SI units, base dimensions) of a quantity, by the table of facts"""
    import numpy as np
    from . import pure
    m = pure.mv(x)
    f, b = world.size_of(m.u)
    return m.m * f, b


# ---------------------------------------------------------------- a long history before the run

def gen_warm(rng):
    return {'seed': rng.randrange(1 << 30), 'n': int(10 * 150 ** rng.random()), 'few': rng.random() < 0.4}


def warm(spec):
    """Hundreds of operations that leave the process as it was, apart from what the package keeps for itself.
    Returns what has to stay alive."""
    import random
    import numpy as np
    pq = world.pq
    rng = random.Random(spec['seed'])
    labels = sorted(FACT)
    groups = facts.BIG_GROUPS
    if spec['few']:
        labels = rng.sample(labels, 3)
        groups = rng.sample(groups, 1)
    kinds = rng.sample(['look', 'text', 'nothing', 'rescale', 'math', 'simplify', 'show', 'define', 'prefer', 'pickle'],
                       rng.choice([1, 2, 4]) if spec['few'] else 10)
    preferred, notation = pq.quantity.PREFERRED, pq.markup.config.use_unicode
    kept = []
    for i in range(spec['n']):
        k = rng.choice(kinds)
        try:
            if k == 'look':
                x = pq.unit_registry[rng.choice(labels)]
            elif k == 'text':
                x = pq.unit_registry['%s**%d*%s/%s' % (rng.choice(labels), rng.randint(1, 4), rng.choice(labels),
                                                       rng.choice(labels))]
            elif k == 'nothing':
                x = pq.unit_registry['nounit%d' % rng.randrange(1000)]
            elif k == 'rescale':
                g = rng.choice(groups)
                p = rng.choice([1, 1, 2, -1])
                a, b = pq.unit_registry[rng.choice(g)], pq.unit_registry[rng.choice(g)]
                x = pq.Quantity(np.arange(3.0) + 1, a ** p).rescale(b ** p if rng.random() < 0.5 else
                                                                    '%s**%d' % (b.symbol, p))
            elif k == 'math':
                a, b = pq.Quantity(rng.random(), rng.choice(labels)), pq.Quantity(2.0, rng.choice(labels))
                x = rng.choice([lambda: a * b, lambda: a / b, lambda: a ** 2, lambda: a + a, lambda: a == b])()
            elif k == 'simplify':
                x = pq.Quantity(rng.random(), '%s*%s' % (rng.choice(labels), rng.choice(labels))).simplified
            elif k == 'show':
                pq.markup.config.use_unicode = rng.random() < 0.5
                x = pq.Quantity(1.0, '%s*%s**-1' % (rng.choice(labels), rng.choice(labels)))
                str(x), repr(x.units), x.dimensionality.html, x.dimensionality.latex
            elif k == 'define':
                x = pq.UnitQuantity('warm%d' % i, (1 + i % 7) * pq.unit_registry[rng.choice(labels)])
            elif k == 'prefer':
                pq.quantity.PREFERRED = [pq.unit_registry[rng.choice(labels)] for _ in range(2)]
                x = pq.Quantity(1.0, rng.choice(labels)).rescale_preferred()
            else:
                import pickle
                x = pickle.loads(pickle.dumps(pq.Quantity(1.0, '%s/%s' % (rng.choice(labels), rng.choice(labels)))))
            if rng.random() < 0.5:
                kept.append(x)
        except Exception:
            pass            # the run that follows judges
        finally:
            pq.quantity.PREFERRED = preferred
            pq.markup.config.use_unicode = notation
    return kept
