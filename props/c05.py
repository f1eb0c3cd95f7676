"""C05: text rendering always denotes the right units, canonically."""
import importlib
import itertools

import numpy as np

from sim import facts, pure, runner, world

RULE_TEXT = ('A case is one simulated run: 2-4 threads of 2-8 operations: renderings (12 forms) of shared quantities, '
             'units and dimensionalities of up to four units, switches of the unicode setting, definitions, reloads, '
             'and a schedule.  Non-trivial: operations overlapped.')
QUICK_RUNS = 7000
QUICK_WALL = 50

SUP = '⁰¹²³⁴⁵⁶⁷⁸⁹'
FORMS_D = ['string', 'unicode', 'latex', 'html', 'str', 'repr', 'format']
FORMS_Q = ['string', 'unicode', 'latex', 'html', 'str', 'str', 'repr', 'format', 'fspec']
FORMS_U = ['str', 'repr', 'name', 'symbol', 'u_symbol', 'string', 'unicode', 'latex', 'html', 'format']
# units the runs define: name -> (class, factor, of, symbol, u_symbol, aliases)
USER = {'zra': ('UnitLength', 3.0, 'm', 'zs', 'µzs', ['zras']), 'zrb': ('UnitQuantity', 2.5, 'J', None, None, []),
        'zrc': ('UnitTime', 7.0, 's', 'zt', None, ['zrcs']), 'zrd': ('UnitQuantity', 0.5, 'm', None, 'ζ', []),
        'zre': ('ZUnit', 2.0, 'kg', None, None, []), 'zrf': ('ZUnit', 6.0, 'Pa', 'zf', None, ['zrfs'])}
CLASSES = {}    # a class of units of our own
POWERS = [1, 1, 1, -1, -1, -1, 2, -2, 3, 0.5, -0.5, 10, -10, 12, 1.5, 20, 10.5]

SYM = {}        # key -> (symbol, unicode symbol)
NAMES = {}
BASE = {}       # canonical order, as rendered before anything happened


def setup():
    if SYM:
        return
    pq = world.pq
    for l in facts.FACT:
        u = pq.unit_registry[l]
        SYM[world.ukey(u)] = (u.symbol, u.u_symbol)
    for l in world.CONSTANTS:
        u = getattr(pq.constants, l[2:])
        SYM[world.ukey(u)] = (u.symbol, u.u_symbol)
    for l in world.COMPOUNDS:
        SYM['(%s)' % l[2:]] = ('(%s)' % l[2:], '(%s)' % sup(l[2:]))
    for n, (_, _, _, s, us, _) in USER.items():
        SYM[n] = (s or n, us or s or n)


def sup(s):
    """**digits as superscripts"""
    out, i = '', 0
    while i < len(s):
        if s.startswith('**', i):
            j = i + 2
            while j < len(s) and s[j].isdigit():
                j += 1
            if j > i + 2 and (j == len(s) or s[j] not in '.e'):
                out += ''.join(SUP[int(c)] for c in s[i + 2:j])
                i = j
                continue
        out += s[i]
        i += 1
    return out


def num(p):
    return str(int(p)) if p == int(p) else repr(float(p))


def braces(s, left, right):
    """**number wrapped"""
    out, i = '', 0
    while i < len(s):
        if s.startswith('**', i):
            j = i + 2
            while j < len(s) and (s[j].isdigit() or s[j] == '.'):
                j += 1
            out += left + s[i + 2:j] + right
            i = j
        else:
            out += s[i]
            i += 1
    return out


def forms(units, syms, outer):
    """the text of units ((key, power) in order) with the given symbols, in the notation `outer`"""
    n = [s + ('**' + num(p) if p != 1 else '') for (k, p), s in zip(units, syms) if p > 0]
    d = [s + ('**' + num(-p) if p != -1 else '') for (k, p), s in zip(units, syms) if p < 0]
    top = '*'.join(n) or ('1' if d else 'dimensionless')
    bottom = '*'.join(d) if len(d) < 2 else '(%s)' % '*'.join(d)
    text = top + '/' + bottom if d else top
    if outer == 'string':
        return text
    if outer == 'unicode':
        return sup(text).replace('**', '^').replace('*', '·')
    if outer == 'html':
        return braces(text, '<sup>', '</sup>').replace('*', '&sdot;')
    if outer == 'latex':
        if d and not (text[0] == '(' and text[-1] == ')'):
            text = r'\frac{%s}{%s}' % (top, bottom)
        return r'$\mathrm{%s}$' % braces(text, '^{', '}').replace('*', r'{\cdot}')
    raise ValueError(outer)


def texts(units, modes, outers):
    """{text: orders of the units that give it}; units: {key: power}"""
    out = {}
    for order in itertools.permutations(sorted(units)):
        u = [(k, units[k]) for k in order]
        for syms in itertools.product(*[sorted({SYM[k][m] for m in modes}) for k in order]):
            for o in outers:
                out.setdefault(forms(u, syms, o), set()).add(order)
    return out


def of_dims(form, units, modes):
    if form in ('string', 'unicode', 'latex', 'html'):
        return texts(units, modes, [form])
    return texts(units, modes, ['unicode' if m else 'string' for m in modes])


def prefixed(t, f):
    return {f(k): v for k, v in t.items()}


def expected(form, x, modes):
    """{text: orders} admissible for x, or None if not covered"""
    pq = world.pq
    if isinstance(x, pq.dimensionality.Dimensionality):
        units = world.units_of(x)
        if form == 'repr':
            by = {world.ukey(u): [(n, '%s' % p) for n in names_of(u, modes)] for u, p in x.items()}
            out = {}
            for order in itertools.permutations(sorted(by)):
                for choice in itertools.product(*[by[k] for k in order]):
                    out.setdefault('Dimensionality({%s})' % ', '.join('%s: %s' % c for c in choice), set()).add(order)
            return out
        return of_dims(form if form != 'format' else 'str', units, modes)
    units = world.units_of(x.dimensionality)
    if form in ('string', 'unicode', 'latex', 'html'):
        return of_dims(form, units, modes)
    mag = np.ndarray.view(x, np.ndarray)
    if isinstance(x, pq.UnitQuantity):
        return of_unit(form, x, units, modes)
    if isinstance(x, pq.UncertainQuantity):
        unc = np.ndarray.view(x.uncertainty, np.ndarray)
        if form == 'repr':
            return prefixed(of_dims('string', units, modes),
                            lambda t: '%s(%s, %s, %s)' % (type(x).__name__, repr(mag), t, repr(unc)))
        if form == 'str' or (form in ('format', 'fspec') and x.ndim):
            out = {}
            t = of_dims('str', units, modes)
            for m in modes:
                for a, b in itertools.product(t, t):
                    s = '%s %s\n+/-%s %s (1 sigma)' % (str(mag), a, str(unc), b)
                    if m:
                        s = s.replace('+/-', '±').replace(' sigma', 'σ')
                    both = t[a] & t[b]
                    if both:
                        out.setdefault(s, set()).update(both)
            return out
    if form == 'repr':
        return prefixed(of_dims('string', units, modes), lambda t: '%s * %s' % (repr(mag), t))
    if form == 'str' or (form in ('format', 'fspec') and x.ndim):
        return prefixed(of_dims('str', units, modes), lambda t: '%s %s' % (str(mag), t))
    if form in ('format', 'fspec'):
        return prefixed(of_dims('str', units, modes),
                        lambda t: '%s %s' % (format(mag, '.2f' if form == 'fspec' else ''), t))
    return None


def names_of(u, modes):
    k = world.ukey(u)
    if k.startswith('('):
        return sorted({SYM[k][m] for m in modes})
    return [k]


def of_unit(form, u, units, modes):
    k = world.ukey(u)
    sym, usym = SYM.get(k, (None, None))
    if sym is None:
        return None
    names = names_of(u, modes)
    any_order = {tuple(sorted(units))}
    if form == 'name':
        return {n: any_order for n in names}
    compound = k.startswith('(')
    if form == 'symbol':
        return {n: any_order for n in (names if compound else [sym])}
    if form == 'u_symbol':
        return {n: any_order for n in (names if compound else [usym])}
    if form == 'format':
        return prefixed(of_dims('str', units, modes), lambda t: '%s %s' % (format(np.float64(1.0), ''), t))
    if form == 'str':
        out = {}
        if compound:
            for a in names:
                out['1 ' + a] = any_order
                for b in names:
                    if len(names) > 1:
                        out['1 %s (%s)' % (b, a)] = any_order
        elif usym != k:
            for m in modes:
                out['1 %s (%s)' % ((sym, usym)[m], k)] = any_order
        else:
            out['1 ' + k] = any_order
        return out
    if form == 'repr':
        if compound:
            return {'1 ' + n: any_order for n in names}
        d = u.definition
        if d is u or type(u).__name__ == 'Dimensionless':
            refs = {'': any_order}
        else:
            du = world.units_of(d.dimensionality)
            if any(x not in SYM for x in du) or type(d).__name__ == 'Dimensionless':
                return None
            refs = prefixed(of_dims('string', du, modes),
                            lambda t: ', %s * %s' % (str(np.ndarray.view(d, np.ndarray)), t))
        out = {}
        for r in refs:
            for m in modes:
                for s in {', %r' % sym} | ({''} if sym == k else set()):
                    # the unicode symbol is listed if one was given
                    for t in ({', %r' % usym} | ({''} if usym in (sym, k) else set())) if m else {''}:
                        out['%s(%r%s%s%s)' % (type(u).__name__, k, r, s, t)] = any_order
        return out
    return None


# ---------------------------------------------------------------- plans

def gen_units(rng):
    u = {}
    for _ in range(rng.choice([1, 1, 2, 2, 3, 3, 4])):
        r = rng.random()
        if r < 0.72:
            l = rng.choice(sorted(facts.FACT))
        elif r < 0.8:
            l = rng.choice(sorted(world.COMPOUNDS))
        elif r < 0.86:
            l = rng.choice(sorted(world.CONSTANTS))
        else:
            l = 'U:' + rng.choice(sorted(USER))
        u[l] = rng.choice(POWERS)
    return u


def generate(rng, tier):
    pool = []
    for _ in range(rng.randint(2, 4)):
        u = gen_units(rng)
        for _ in range(rng.randint(1, 3)):
            items = list(u.items())
            rng.shuffle(items)
            r = rng.random()
            if r < 0.45:
                pool.append({'t': 'd', 'u': dict(items)})
            elif r < 0.55 and len(u) < 3:
                pool.append({'t': 'uq', 'u': dict(items), 'v': round(rng.uniform(0.5, 9), 2), 'n': rng.choice([0, 0, 2])})
            elif r < 0.75:
                pool.append({'t': 'q', 'u': dict(items), 'v': round(rng.uniform(0.5, 9), 2), 'n': rng.choice([0, 0, 2, 3])})
            else:
                pool.append({'t': 'p', 'u': dict(items), 'v': float(rng.randint(1, 9))})
    for _ in range(rng.randint(1, 3)):
        r = rng.random()
        pool.append({'t': 'u', 'l': rng.choice(sorted(facts.FACT) if r < 0.6 else sorted(world.COMPOUNDS) if r < 0.75 else
                                               sorted(world.CONSTANTS) if r < 0.85 else ['U:' + n for n in USER])})
    nt = rng.choice([2, 2, 3, 4])
    threads = []
    for t in range(nt):
        role = rng.choice(['render', 'render', 'toggle', 'define', 'mixed'])
        w = {'render': [9, 0.5, 0.3, 0.2], 'toggle': [2, 6, 0.3, 0.1], 'define': [3, 1, 5, 1], 'mixed': [6, 2, 1, 0.5]}[role]
        prog = []
        for _ in range(rng.randint(2, 8)):
            k = rng.choices(['render', 'toggle', 'define', 'reload'], w)[0]
            if k == 'render':
                i = rng.randrange(len(pool))
                f = {'d': FORMS_D, 'u': FORMS_U}.get(pool[i]['t'], FORMS_Q)
                prog.append({'op': 'render', 'i': i, 'form': rng.choice(f)})
            elif k == 'toggle':
                prog.append({'op': 'toggle', 'on': rng.random() < 0.5})
                if rng.random() < 0.06:
                    prog[-1]['fault'] = ['interrupt', rng.randint(1, 6)]
            elif k == 'define':
                prog.append({'op': 'define', 'n': rng.choice(sorted(USER))} if rng.random() < 0.6 else
                            {'op': 'other', 'n': 'zo%d' % rng.randrange(4)})
            else:
                prog.append({'op': 'reload', 'mod': rng.choice(['length', 'time', 'energy', 'pressure', 'angle', 'force'])})
        threads.append(prog)
    return {'pool': pool, 'threads': threads, 'first': rng.random() < 0.25,
            'predefine': rng.sample(sorted(USER), len(USER)),
            'schedule': runner.make_schedule_spec(rng, sum(map(len, threads)))}


def define(n):
    pq = world.pq
    cls, f, of, s, us, al = USER[n]
    if cls == 'ZUnit':
        make = CLASSES.get(cls) or CLASSES.setdefault(cls, type(cls, (pq.UnitQuantity,), {'__module__': __name__}))
    else:
        make = getattr(pq, cls)
    return make(n, f * pq.unit_registry[of], symbol=s, u_symbol=us, aliases=list(al))


def unit(l):
    return world.pq.unit_registry[l[2:]] if l.startswith('U:') else world.unit_object(l)


def build(s):
    pq = world.pq
    if s['t'] == 'u':
        return unit(s['l'])
    if s['t'] == 'p':
        # built by arithmetic
        q = pq.Quantity(s['v'])
        for l, p in s['u'].items():
            q = q * unit(l) ** p
        return q
    d = pq.dimensionality.Dimensionality()
    for l, p in s['u'].items():
        d[unit(l)] = p
    if s['t'] == 'd':
        return d
    v = np.full(s['n'], s['v']) if s['n'] else s['v']
    if s['t'] == 'uq':
        return pq.UncertainQuantity(v, d, 0.25 if not s['n'] else np.full(s['n'], 0.25))
    return pq.Quantity(v, d)


def render(x, form):
    if form in ('string', 'unicode', 'latex', 'html'):
        return getattr(x if isinstance(x, dict) else x.dimensionality, form)
    if form == 'str':
        return str(x)
    if form == 'repr':
        return repr(x)
    if form == 'format':
        return '{}'.format(x)
    if form == 'fspec':
        return format(x, '.2f') if not x.ndim else format(x, '')
    return getattr(x, form)


def call(o, pool):
    pq = world.pq
    n = o['op']
    if n == 'render':
        return render(pool[o['i']], o['form'])
    if n == 'toggle':
        pq.markup.config.use_unicode = o['on']
        return None
    if n == 'define':
        return define(o['n'])
    if n == 'other':
        return pq.UnitQuantity(o['n'], 2.0 * pq.m)
    if n == 'reload':
        importlib.reload(importlib.import_module('quantities.units.' + o['mod']))
        return None


def execute(plan, phase, carry):
    setup()
    pq = world.pq
    for n in plan['predefine']:
        define(n)
    pool = [build(s) for s in plan['pool']]
    before = [world.canon(x) for x in pool]
    orders = {}         # units -> orders that explain every rendering so far
    run = runner.Run(plan)

    def judge(i, form, got, modes, what):
        x = pool[i]
        exp = expected(form, x, modes)
        if exp is None:
            return
        if not isinstance(got, str):
            run.violate('not-text', '%s gave %r' % (what, got))
            return
        o = exp.get(got)
        if o is None:
            run.violate('wrong-text', '%s of %s gave %r; right would be %s' % (
                what, world.short(before[i]), got, world.short(sorted(exp)[:6], 600)))
            return
        key = tuple(sorted(world.units_of(x if isinstance(x, dict) else x.dimensionality).items()))
        left = orders.get(key)
        if left is None:
            orders[key] = set(o)
        elif len(next(iter(o))) > 1 and len(next(iter(o))) == len(next(iter(left))):
            if not left & o:
                run.violate('not-canonical', '%s of %s gave %r, an order other than before: %s, was %s' % (
                    what, world.short(before[i]), got, sorted(o)[:3], sorted(left)[:3]))
            orders[key] = left & o

    pq.markup.config.use_unicode = plan['first']
    # in half of the runs the first rendering of everything happens before the run, in the others in it
    if len(plan['pool']) % 2:
        for i, x in enumerate(pool):
            for f in ('string', 'str', 'repr'):
                judge(i, f, render(x, f) if not (f == 'string' and isinstance(x, str)) else '', [int(plan['first'])], 'first ' + f)

    def body(t, tid, prog):
        for i, o in enumerate(prog):
            if o['op'] != 'nothing':
                run.call(t, i, o, lambda: call(o, pool))

    run.go(body)
    if run.inconclusive is None:
        writes = [(r.b, r.e if r.out[0] != 'E' else None, int(r.op['on']), r.out[0] != 'E')
                  for r in run.recs if r.op['op'] == 'toggle']
        for r in run.recs:
            o = r.op
            if r.out[0] == 'E' and not r.fired:
                run.violate('raises', '%r: %r' % (r, r.exc))
            elif o['op'] == 'render':
                modes = sorted(set(runner.admissible(writes, int(plan['first']), r.b, r.e)))
                judge(o['i'], o['form'], r.res, modes, '%r %s' % (r, o['form']))
        end = run.tick + 1
        adm = set(runner.admissible(writes, int(plan['first']), end, end))
        now = pq.markup.config.use_unicode
        if now not in (True, False) or int(now) not in adm:
            run.violate('setting-lost', 'the setting is %r, should be in %s' % (now, adm))
        if not run.violations:
            for m in (int(now), 1 - int(now), int(now)):
                pq.markup.config.use_unicode = bool(m)
                for i, x in enumerate(pool):
                    for f in ({'d': FORMS_D, 'u': FORMS_U}.get(plan['pool'][i]['t'], FORMS_Q)):
                        try:
                            got = render(x, f)
                        except Exception as e:
                            run.violate('raises', 'afterwards %s of %s: %r' % (f, world.short(before[i]), e))
                            continue
                        judge(i, f, got, [m], 'afterwards (unicode %s) %s' % (bool(m), f))
        pq.markup.config.use_unicode = False
        for i, (x, b) in enumerate(zip(pool, before)):
            if world.canon(x) != b:
                run.violate('operand-changed', 'operand %d: %s, was %s' % (i, world.short(world.canon(x)), world.short(b)))
    return run.result(nontrivial=run.stats()['overlaps'] > 0)
