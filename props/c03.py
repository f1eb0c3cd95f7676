"""C03: a failed unit definition leaves nothing behind."""
from sim import common, regmodel as R, runner, world

RULE_TEXT = ('A case is one simulated run: 1-4 threads of 2-9 operations, mostly definitions with a conflict or an '
             'unusable part at a random label position, a definition whose evaluation fails or a failing array '
             'allocation, among sound definitions and look-ups, and a schedule; afterwards every failed definition '
             'is corrected and repeated.  Non-trivial: a definition was refused.')
QUICK_RUNS = 7000
QUICK_WALL = 50


def generate(rng, tier):
    nt = rng.choice([1, 2, 2, 3, 4])
    meanings = [{'f': rng.choice([2.0, 3.0, 7.5]), 'u': rng.choice(R.UNITS)} for _ in range(rng.choice([1, 2, 3]))]
    blobs = [R.gen_define(rng, 0, meanings) for _ in range(rng.choice([0, 0, 1]))]
    for b in blobs:
        b['proto'] = rng.choice([0, 2, 4, 5])
        if b['def'] and 'label' in b['def']:
            b['def'] = rng.choice(meanings)
    threads = []
    for t in range(nt):
        prog = []
        for _ in range(rng.randint(2, 9)):
            r = rng.random()
            if r < 0.68:
                o = R.gen_define(rng, 0.25, meanings)
                o['at'] = rng.randrange(6)
                if rng.random() < 0.3:
                    # the conflict sits at a chosen position
                    taken = rng.choice(R.TAKEN)
                    k = rng.randrange(3)
                    if k == 0:
                        o['symbol'] = taken
                    elif k == 1:
                        o['aliases'].insert(rng.randint(0, len(o['aliases'])), taken)
                    else:
                        o['name'] = taken
                    o['aliases'] = [a for i, a in enumerate(o['aliases'])
                                    if a != o['name'] and a != o['symbol'] and a not in o['aliases'][:i]]
                    if o['symbol'] == o['name']:
                        o['symbol'] = None
                if rng.random() < 0.2:
                    o['fault'] = ['alloc', common.alloc_at(rng, 60), rng.choice([1, 1, 4, 1000])]
                prog.append(o)
            elif r < 0.9:
                prog.append(R.gen_lookup(rng))
            elif r < 0.95 and blobs:
                prog.append({'op': 'loads', 'blob': rng.randrange(len(blobs))})
            else:
                prog.append({'op': 'setlabel', 'label': rng.choice(R.USER + R.TAKEN[:2]),
                             'to': rng.choice(R.USER[:3] + R.TAKEN)})
        threads.append(prog)
    return {'threads': threads, 'blobs': blobs, 'sample': rng.randrange(1 << 30), 'all': rng.random() < 0.02,
            'schedule': runner.make_schedule_spec(rng, sum(map(len, threads)))}


def corrected(run, final, blobs_spec):
    """what failed can be defined under the same name without the obstacle"""
    pq = world.pq
    for r in run.recs:
        o = r.op
        if o['op'] != 'define' or r.out[0] != 'E' or o['name'] in R.TAKEN:
            continue
        # everything it wanted, unless somebody else has it by now
        free = [l for l in R.all_labels(o)[1:] if R.resolve(l) is None]
        known = R.resolve(o['name'])
        if known is not None:
            continue            # that name belongs to a definition that succeeded (judged before)
        d = o['def'] if o['def'] is not None and 'label' not in o['def'] else {'f': 2.0, 'u': {'m': 1}}
        if o['def'] is None and not o.get('bad'):
            d = None
        fix = dict(o, aliases=free, symbol=None, bad=None, fault=None)
        fix['def'] = d
        try:
            u = R.call_define(fix)
        except Exception as e:
            run.violate('cannot-be-corrected', '%r, then %s(%r, aliases=%s): %s: %s' % (
                r, o['cls'], o['name'], free, type(e).__name__, e))
            return
        m = R.meaning(fix, final)
        for l in [o['name']] + free:
            v = R.resolve(l)
            got = None if v is None else R.meaning_of_unit(v)
            if not R.same(got, m):
                run.violate('correction-lost', '%r, then defined as %s, but %r means %s' % (r, m, l, got))
                return
        final[o['name']] = m


def execute(plan, phase, carry):
    return R.execute(plan, corrected)
