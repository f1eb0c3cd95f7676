"""Histories of unit definitions and look-ups, and what the registry may answer (C02, C03)."""
import copy
import importlib
import pickle
import random

import numpy as np

from . import facts, runner, world
from .facts import FACT

USER = ['za', 'zb', 'zc', 'zd', 'ze', 'zf']
TAKEN = ['m', 'kg', 's', 'J', 'ft', 'hour', 'Pa', 'byte']
UNITS = [{'m': 1}, {'m': 1}, {'ft': 1}, {'s': 1}, {'kg': 1}, {'J': 1}, {'m': 1, 's': -1}, {}, {'kg': 2}, {'bit': 1}]
CLASSES = {'m': 'UnitLength', 'ft': 'UnitLength', 's': 'UnitTime', 'kg': 'UnitMass', 'bit': 'UnitInformation'}
IRREDUCIBLE = ['UnitLength', 'UnitMass', 'UnitTime', 'UnitCurrency', 'UnitCurrency', 'UnitSubstance',
               'UnitCurrent', 'UnitTemperature', 'UnitInformation', 'UnitLuminousIntensity']


class BadMul:
    """a definition that cannot be evaluated"""

    def __mul__(self, other):
        raise ZeroDivisionError('no such thing')

    __rmul__ = __mul__


def gen_labels(rng, n):
    return [rng.choice(USER) if rng.random() < 0.93 else rng.choice(TAKEN) for _ in range(n)]


def gen_define(rng, fail=0.1, meanings=None):
    n = rng.choice([1, 1, 2, 2, 3, 4, 5])
    labels = []
    for l in gen_labels(rng, n):
        if l not in labels:
            labels.append(l)
    o = {'op': 'define', 'name': labels[0], 'symbol': None, 'u_symbol': None, 'aliases': [], 'cls': 'UnitQuantity'}
    rest = labels[1:]
    if rest and rng.random() < 0.5:
        o['symbol'] = rest.pop(0)
    if rng.random() < 0.2:
        o['u_symbol'] = 'µ' + labels[0]
    o['aliases'] = rest
    r = rng.random()
    if r < 0.12:
        o['cls'] = rng.choice(IRREDUCIBLE)
        o['def'] = None
    elif r < 0.25:
        o['def'] = {'label': rng.choice(USER), 'f': rng.choice([1.0, 2.0, 0.5])}
    else:
        if meanings and rng.random() < 0.75:
            o['def'] = rng.choice(meanings)
        else:
            o['def'] = {'f': rng.choice([2.0, 3.0, 7.5, 1000.0, 0.001]), 'u': rng.choice(UNITS)}
        u = o['def']['u']
        if len(u) == 1 and list(u.values()) == [1] and rng.random() < 0.5:
            o['cls'] = CLASSES.get(list(u)[0], 'UnitQuantity')
    if rng.random() < fail:
        o['bad'] = rng.choice(['name', 'symbol', 'alias', 'unhashable', 'def', 'defstr', 'mul', 'aliases'])
    return o


def all_labels(o):
    """the labels of a definition in the order in which the library receives them"""
    return [o['name']] + ([o['symbol']] if o['symbol'] else []) + list(o['aliases'])


def definition_of(o):
    pq = world.pq
    d = o['def']
    bad = o.get('bad')
    if bad == 'def':
        return object()
    if bad == 'defstr':
        return 'nonsense'
    if bad == 'mul':
        return BadMul()
    if d is None:
        return None
    if 'label' in d:
        u = pq.unit_registry[d['label']]
        return u * d['f'] if d['f'] != 1.0 else u
    u = d['u']
    if not u:
        return d['f']
    if len(u) == 1 and list(u.values()) == [1] and d['f'] == 1.0:
        return world.unit_object(list(u)[0])
    return pq.Quantity(d['f'], world.dims_object(u))


def call_define(o):
    pq = world.pq
    cls = getattr(pq, o['cls'])
    name, symbol, aliases = o['name'], o['symbol'], list(o['aliases'])
    bad = o.get('bad')
    if bad == 'name':
        name = 12
    elif bad == 'symbol':
        symbol = 3.5
    elif bad == 'alias':
        aliases.insert(o.get('at', 0) % (len(aliases) + 1), 7)
    elif bad == 'unhashable':
        aliases.insert(o.get('at', 0) % (len(aliases) + 1), ['x'])
    elif bad == 'aliases':
        aliases = 5
    return cls(name, definition_of(o), symbol=symbol, u_symbol=o['u_symbol'], aliases=aliases)


def pickle_of(o):
    """the definition as another process would have pickled it"""
    def work():
        return pickle.dumps(call_define(o), o.get('proto', 2))
    try:
        return runner.in_fork(work)
    except runner.HarnessError:
        return None


def gen_product(rng):
    u = {}
    for _ in range(rng.randint(2, 3)):
        u[rng.choice(USER + TAKEN[:4])] = rng.choice([1, 2, -1, -2])
    return u


def gen_lookup(rng, products=None):
    """products: a few expressions that are looked up again and again"""
    r = rng.random()
    if r < 0.55:
        o = {'op': 'lookup', 'x': {rng.choice(USER): 1}}
    elif r < 0.65:
        o = {'op': 'lookup', 'x': {rng.choice(TAKEN): 1}}
    else:
        o = {'op': 'lookup', 'x': gen_product(rng) if not products or rng.random() < 0.5 else rng.choice(products)}
        if rng.random() < 0.3:
            o['st'] = rng.choice(['caret', 'dot', 'middot', 'space', 'paren'])
        if rng.random() < 0.3:
            o['mut'] = rng.choice(['imul', 'iadd', 'set', 'units'])
    return o


def text(x, style=None):
    r = '1'
    star = {'dot': '.', 'middot': '·', 'space': ' * '}.get(style, '*')
    power = '^' if style == 'caret' else '**'
    if all(p == 1 for p in x.values()):
        return star.join(x)
    if style == 'paren':
        return '(%s)' % text(x)
    for l, p in x.items():
        r += (('*' if star == '.' and not r[-1].isalpha() else star) if p > 0 else '/') + (
            l if abs(p) == 1 else '%s%s%d' % (l, power, abs(p)))
    return r


def change(q, how):
    """the caller changes the quantity that a look-up gave it"""
    if not isinstance(q, world.pq.Quantity) or isinstance(q, world.pq.UnitQuantity):
        return
    try:
        if how == 'imul':
            q *= 3.0
        elif how == 'iadd':
            q += q
        elif how == 'set':
            q[...] = 5.0 * q.units
        elif how == 'units':
            q *= world.pq.m
    except Exception:
        pass


def call(o, blobs):
    pq = world.pq
    n = o['op']
    if n == 'define':
        return call_define(o)
    if n == 'loads':
        return pickle.loads(blobs[o['blob']])
    if n == 'lookup':
        return pq.unit_registry[text(o['x'], o.get('st'))]
    if n == 'setlabel':
        pq.unit_registry[o['label']] = pq.unit_registry[o['to']]
        return None
    if n == 'quantity':
        return pq.Quantity([1.0, 2.0], text(o['x'], o.get('st')))
    if n == 'copy':
        return pq.unit_registry[o['label']].copy()
    if n == 'reload':
        importlib.reload(importlib.import_module('quantities.units.' + o['mod']))
        return None
    raise ValueError(n)


# ---------------------------------------------------------------- meanings

def meaning(spec, final):
    """what a definition means: (size, base dimensions), or None if its own label has no meaning.
    final: label -> meaning at the end"""
    d = spec['def']
    if d is None:
        return (1.0, {'@%s:%s' % (spec['cls'], spec['name']): 1})
    if 'label' in d:
        m = final.get(d['label'])
        if m is None:
            return None
        return (m[0] * d['f'], m[1])
    f, b = facts.size_of(d['u'])
    return (f * d['f'], b)


def same(a, b):
    return a is not None and b is not None and a[1] == b[1] and abs(a[0] - b[0]) <= 1e-9 * abs(b[0])


def meaning_of_unit(u, depth=0):
    """the meaning of a unit object, from its definition down to units of the table of facts"""
    pq = world.pq
    k = world.ukey(u)
    if k in world.SIZE and world.LABELS.get(k) == world.unit_facts(u):
        return world.SIZE[k]
    d = u.definition
    if d is u:
        if type(u).__name__ == 'Dimensionless':
            return (1.0, {})
        return (1.0, {'@%s:%s' % (type(u).__name__, k): 1})
    if depth > 12:
        raise runner.HarnessError('definition of %s is circular' % k)
    f, b = float(np.ndarray.view(d, np.ndarray)), {}
    for v, p in d.dimensionality.items():
        if v is u:
            raise runner.HarnessError('definition of %s refers to itself' % k)
        ff, bb = meaning_of_unit(v, depth + 1)
        f *= ff ** float(p)
        for kk, q in bb.items():
            b[kk] = b.get(kk, 0) + q * float(p)
    return (f, {kk: q for kk, q in b.items() if abs(q) > 1e-9})


def resolve(label):
    pq = world.pq
    try:
        return pq.unit_registry[label]
    except LookupError:
        return None


def check(run, blobs_spec):
    """judge a finished history"""
    pq = world.pq
    objs = {l: resolve(l) for l in USER + TAKEN}
    final = {}
    for l, u in objs.items():
        if u is None:
            continue
        if not isinstance(u, pq.UnitQuantity):
            run.violate('not-a-unit', 'label %r resolves to %s' % (l, world.short(world.canon(u))))
            return
        if l in FACT and l in TAKEN:
            if world.unit_facts(u) != world.LABELS[l]:
                run.violate('meaning-changed', 'label %r now is %s, was %s' % (
                    l, world.short(world.unit_facts(u)), world.short(world.LABELS[l])))
        final[l] = meaning_of_unit(u)
    facts_of = {l: world.unit_facts(u) for l, u in objs.items() if u is not None}

    # each definition, with what it meant
    defs = []
    for r in run.recs:
        o = r.op
        if o['op'] in ('define', 'loads'):
            spec = o if o['op'] == 'define' else blobs_spec[o['blob']]
            if o['op'] == 'loads' and spec.get('nothing'):
                continue
            defs.append((r, spec, all_labels(spec), meaning(spec, final), r.out[0] != 'E'))
        elif o['op'] == 'setlabel':
            spec = {'def': {'label': o['to'], 'f': 1.0}, 'name': o['label']}
            m = final.get(o['to'])
            defs.append((r, spec, [o['label']], m, r.out[0] != 'E'))
    for r, spec, labels, m, ok in defs:
        if ok:
            if spec.get('bad'):
                run.violate('accepted-nonsense', '%r' % r)
            for l in labels:
                if final.get(l) is None:
                    run.violate('label-lost', '%r succeeded, but %r does not resolve' % (r, l))
                elif not same(final[l], m):
                    run.violate('label-other-meaning', '%r succeeded with meaning %s, but %r means %s' % (
                        r, m, l, final[l]))
            if r.res is not None and m is not None:
                got = meaning_of_unit(r.res)
                if not same(got, m):
                    run.violate('label-other-meaning', '%r means %s instead of %s' % (r, got, m))
        else:
            if spec.get('bad') or r.fired:
                continue
            if r.out[1] in ('KeyboardInterrupt', 'MemoryError'):
                run.violate('spurious-failure', '%r' % r)
                continue
            d = spec['def']
            reason = None
            if d is not None and 'label' in d and r.op['op'] != 'loads':
                if not defined_before(defs, d['label'], r.b, final):
                    reason = 'definition not available'
            for l in labels:
                if final.get(l) is not None and not same(final[l], m) and begun_before(defs, l, r.e, final):
                    reason = 'conflict on ' + l
            if reason is None:
                run.violate('spurious-failure', '%r although nothing stands in its way (labels %s)' % (
                    r, {l: final.get(l) for l in labels}))
            elif not reason.startswith('conflict') and r.out[1] not in ('LookupError', 'KeyError'):
                run.violate('wrong-error', repr(r))
            elif reason.startswith('conflict') and r.out[1] not in ('KeyError', 'LookupError'):
                run.violate('wrong-error', repr(r))
    # labels that only failed definitions claimed
    for l in USER:
        if final.get(l) is not None and not any(ok and l in labels for r, spec, labels, m, ok in defs):
            run.violate('leftover', '%r resolves to %s, but no definition of it succeeded' % (
                l, world.short(facts_of[l])))
    # every look-up
    for r in run.recs:
        o = r.op
        if o['op'] in ('lookup', 'quantity'):
            x = o['x']
            if r.out[0] == 'E':
                if r.fired:
                    continue
                if r.out[1] not in ('LookupError', 'KeyError'):
                    run.violate('wrong-error', repr(r))
                if all(defined_before(defs, l, r.b, final) for l in x):
                    run.violate('lookup-failed', '%r although every label of it was defined' % r)
            else:
                for l in x:
                    if l in USER and not begun_before(defs, l, r.e, final):
                        run.violate('leftover', '%r although no successful definition of %r had begun' % (r, l))
                if any(l not in facts_of for l in x):
                    run.violate('label-lost', '%r, and now %s does not resolve' % (r, [l for l in x if l not in facts_of]))
                    continue
                if o['op'] == 'lookup' and len(x) == 1 and list(x.values()) == [1]:
                    got = r.out
                    if got != facts_of[list(x)[0]]:
                        run.violate('meaning-changed', '%r gave %s, now it is %s' % (
                            list(x)[0], world.short(got), world.short(facts_of[list(x)[0]])))
                else:
                    want = {}
                    for l, p in x.items():
                        if type(objs[l]).__name__ == 'Dimensionless':
                            continue
                        k = world.ukey(objs[l])
                        want[k] = want.get(k, 0) + p
                    want = {k: float(p) for k, p in want.items() if p}
                    got = {}
                    if r.out[0] == 'Q':
                        for k, p in r.out[3]:
                            got[k] = got.get(k, 0) + p
                    mag = world.arr(np.array([1.0, 2.0] if o['op'] == 'quantity' else 1.0))
                    if r.out[0] != 'Q' or {k: p for k, p in got.items() if p} != want or r.out[2] != mag:
                        run.violate('wrong-product', '%r should have units %s' % (r, want))
        elif o['op'] == 'copy' and r.out[0] != 'E' and not r.fired:
            l = o['label']
            if facts_of.get(l) is not None and not same(meaning_of_unit(r.res), final[l]):
                run.violate('meaning-changed', '%r: copy of %r means %s' % (r, l, meaning_of_unit(r.res)))
        elif o['op'] in ('copy', 'reload') and r.out[0] == 'E' and not r.fired:
            if o['op'] == 'copy' and not defined_before(defs, o['label'], r.b, final):
                continue
            run.violate('spurious-failure', repr(r))
    return final


def defined_before(defs, label, t, final):
    if label in TAKEN:
        return True
    return any(ok and label in labels and r.e <= t for r, spec, labels, m, ok in defs)


def begun_before(defs, label, t, final):
    if label in TAKEN:
        return True
    return any(ok and label in labels and r.b <= t for r, spec, labels, m, ok in defs)


def execute(plan, after=None):
    blobs_spec = plan.get('blobs', [])
    blobs = []
    for s in blobs_spec:
        b = pickle_of(s)
        if b is None:
            b = pickle.dumps(None)
            s['nothing'] = True
        blobs.append(b)
    before_defaults = world.defaults()
    labels = sorted(random.Random(plan['sample']).sample(sorted(world.LABELS), 12))
    run = runner.Run(plan)

    def body(t, tid, prog):
        for i, o in enumerate(prog):
            if o['op'] == 'nothing':
                continue
            r = run.call(t, i, o, lambda: call(o, blobs))
            if o.get('mut') and r is not None and r.res is not None:
                change(r.res, o['mut'])
            if plan.get('forget') and o['op'] != 'copy':
                # nothing but the package itself keeps the units that were defined
                r.res = r.exc = None

    run.go(body)
    if run.inconclusive is None:
        final = check(run, blobs_spec)
        d = world.label_damage(labels if not plan.get('all') else sorted(world.LABELS))
        if d:
            run.violate('existing-unit-changed', d)
        now = world.defaults()
        for c, v in before_defaults.items():
            if now[c] != v:
                # the first irreducible unit of a dimension becomes its default
                ok = [s['name'] for r in run.recs if r.out[0] != 'E' for s in
                      [r.op if r.op['op'] == 'define' else blobs_spec[r.op['blob']] if r.op['op'] == 'loads' else {}]
                      if s.get('cls') == c]
                if v is not None or now[c] not in ok:
                    run.violate('default-changed', '%s: %s, was %s' % (c, now[c], v))
        if after is not None and final is not None and not run.violations:
            after(run, final, blobs_spec)
    return run.result(nontrivial=run.stats()['overlaps'] > 0 or any(r.out[0] == 'E' for r in run.recs))
