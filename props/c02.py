"""C02: a unit label never changes its meaning; of competing definitions one wins."""
from sim import regmodel as R, runner

RULE_TEXT = ('A case is one simulated run: 2-4 threads of 2-8 definitions (all kinds of unit, 1-5 labels out of a few '
             'contested ones), look-ups (whose results the caller may change), unpicklings, label assignments, copies and reloads, and a schedule.  '
             'Non-trivial: operations overlapped, or one was refused.')
QUICK_RUNS = 9000


def generate(rng, tier):
    nt = rng.choice([2, 2, 3, 4])
    meanings = [{'f': rng.choice([2.0, 3.0, 7.5]), 'u': rng.choice(R.UNITS)} for _ in range(rng.choice([1, 2, 2, 3]))]
    blobs = [R.gen_define(rng, 0, meanings) for _ in range(rng.choice([0, 0, 1, 2]))]
    for b in blobs:
        b['proto'] = rng.choice([0, 2, 4, 5])
        if b['def'] and 'label' in b['def']:
            b['def'] = rng.choice(meanings)
    products = [R.gen_product(rng) for _ in range(rng.choice([1, 2, 2]))]
    threads = []
    for t in range(nt):
        prog = []
        for _ in range(rng.randint(2, 8)):
            r = rng.random()
            if r < 0.45:
                prog.append(R.gen_define(rng, 0.08, meanings))
            elif r < 0.82:
                prog.append(R.gen_lookup(rng, products))
            elif r < 0.87:
                prog.append(dict(R.gen_lookup(rng, products), op='quantity'))
            elif r < 0.92 and blobs:
                prog.append({'op': 'loads', 'blob': rng.randrange(len(blobs))})
            elif r < 0.96:
                prog.append({'op': 'setlabel', 'label': rng.choice(R.USER + R.TAKEN[:2]), 'to': rng.choice(R.USER[:3] + R.TAKEN)})
            elif r < 0.99:
                prog.append({'op': 'copy', 'label': rng.choice(R.USER + R.TAKEN)})
            else:
                prog.append({'op': 'reload', 'mod': rng.choice(['angle', 'length', 'energy', 'time', 'pressure'])})
        threads.append(prog)
    return {'threads': threads, 'blobs': blobs, 'forget': rng.random() < 0.4, 'sample': rng.randrange(1 << 30), 'all': rng.random() < 0.02,
            'schedule': runner.make_schedule_spec(rng, sum(map(len, threads)))}


def execute(plan, phase, carry):
    return R.execute(plan)
