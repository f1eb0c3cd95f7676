"""Distributes simulated runs over zygotes, collects what they covered, minimises and replays violations."""
import copy
import hashlib
import importlib
import json
import os
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = '/opt/venv/bin/python'
NZ = 8
HASH_SEEDS = ['0', '1', '2', '3', '5', '8', '13', '21']

# runs in the quick tier, and the most seconds they may take
QUICK = {}
TIERS = {'quick': (None, 75.0), 'thorough': (None, 1500.0)}


class Zygote:

    def __init__(self, n, prop, bare=False):
        self.n = n
        self.prop = prop
        self.mode = 'bare' if bare else 'full'
        self.lock = threading.Lock()
        self.p = None

    def start(self):
        env = {'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent', 'LANG': 'C.UTF-8', 'PYTHONHASHSEED': HASH_SEEDS[self.n],
               'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1', 'PYTHONDONTWRITEBYTECODE': '1',
               'VERIF_REPO': os.environ.get('VERIF_REPO', '/repo'), 'PYTHONNOUSERSITE': '1'}
        self.p = subprocess.Popen([PYTHON, '-E' if False else '-s', os.path.join(VERIF, 'sim', 'zygote.py'), self.mode,
                                   self.prop], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd='/',
                                  text=True)

    def ask(self, req):
        with self.lock:
            if self.p is None:
                self.start()
            try:
                self.p.stdin.write(json.dumps(req) + '\n')
                self.p.stdin.flush()
                line = self.p.stdout.readline()
            except OSError:
                line = ''
            if not line:
                self.p.kill()
                self.p.wait()
                self.p = None
                return {'error': 'the zygote ended'}
            return json.loads(line)

    def stop(self):
        if self.p is not None:
            self.p.stdin.close()
            try:
                self.p.wait(5)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
            self.p = None


class Farm:

    def __init__(self, prop):
        self.prop = prop
        self.mod = importlib.import_module('props.' + prop.lower()) if False else None
        bare = prop in BARE
        self.z = [Zygote(i, prop, bare) for i in range(NZ)]

    def stop(self):
        for z in self.z:
            z.stop()

    def run(self, req, home):
        """one simulated run with all its phases; home: the zygote of its first phase"""
        phase, carry, plan = 0, None, req.get('plan')
        total = None
        while True:
            r = dict(req, prop=self.prop, phase=phase)
            if carry is not None:
                r['carry'] = carry
            if plan is not None:
                r['plan'] = plan
            out = self.z[(home + phase) % NZ].ask(r)
            if out.get('timeout'):
                pass
            elif 'error' in out and not out.get('load') and not req.get('no_retry'):
                out = self.z[(home + phase) % NZ].ask(r)      # once more: a harness error has to be repeatable
            if 'error' in out:
                out['phase'] = phase
                if plan is not None:
                    out['plan'] = plan
                return out
            plan = out.get('plan', plan)
            total = merge_phase(total, out)
            if out.get('violations') or out.get('inconclusive') or out.get('next') is None:
                if plan is not None:
                    total['plan'] = plan
                total['home'] = home
                return total
            carry = out['next']
            phase += 1


BARE = {'C14'}


def merge_phase(total, out):
    if total is None:
        return dict(out)
    t = dict(total)
    for k in ('violations', 'inconclusive', 'next', 'segments'):
        t[k] = out.get(k)
    t['digest'] = hashlib.sha256((str(total.get('digest')) + str(out.get('digest'))).encode()).hexdigest()[:16]
    t['stats'] = add_stats(dict(total['stats']), out['stats'])
    return t


def add_stats(a, b):
    for k, v in b.items():
        if k == 'hash':
            a[k] = (a.get(k, 0) * 1000003 ^ v) & 0xFFFFFFFFFFFF
        elif isinstance(v, bool):
            a[k] = a.get(k, False) or v
        elif isinstance(v, dict):
            d = dict(a.get(k, {}))
            for kk, n in v.items():
                d[kk] = d.get(kk, 0) + n
            a[k] = d
        elif isinstance(v, (int, float)):
            a[k] = a.get(k, 0) + v
        elif isinstance(v, list):
            a[k] = a.get(k, []) + v
        else:
            a[k] = v
    return a


def load_prop(prop):
    """the parts of a property module that need no package: its constants"""
    import ast
    src = open(os.path.join(VERIF, 'props', prop.lower() + '.py')).read()
    out = {}
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return out


# ---------------------------------------------------------------- known findings

def known_findings(prop):
    """entries {"property", "class", "match": substring of the detail, "what"}; 'fixed:' lines suppress nothing"""
    out = []
    path = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line:
                continue
            d = json.loads(line)
            if d.get('property') == prop and d.get('status') == 'known':
                out.append(d)
    return out


def is_known(v, known):
    for d in known:
        if d['class'] == v['class'] and d['match'] in v['detail']:
            return d
    return None


def split_known(result, known):
    new, old = [], []
    for v in result.get('violations') or []:
        d = is_known(v, known)
        (old if d else new).append((v, d))
    return [v for v, d in new], [d for v, d in old]


# ---------------------------------------------------------------- minimising

class Shrinker:

    def __init__(self, farm, plan, home, cls, known, deadline):
        self.farm = farm
        self.plan = plan
        self.home = home
        self.cls = cls
        self.known = known
        self.deadline = deadline
        self.tried = 0
        self.last = None

    def fails(self, plan):
        if time.monotonic() > self.deadline:
            return None
        self.tried += 1
        out = self.farm.run({'plan': plan, 'want_segments': True, 'timeout': 30, 'no_retry': True}, self.home)
        new, _ = split_known(out, self.known) if 'error' not in out else ([], [])
        if any(v['class'] == self.cls for v in new):
            return out
        return None

    def fails_any(self, plan, seeds):
        """like fails, also trying other seeds of the schedule"""
        out = self.fails(plan)
        if out:
            return plan, out
        s = plan.get('schedule', {})
        if s.get('kind') in ('walk', 'pct'):
            for i in range(seeds):
                p = copy.deepcopy(plan)
                p['schedule']['seed'] = i
                if p['schedule']['kind'] == 'pct':
                    p['schedule']['horizon'] = max(200, 900 * sum(len(x) for x in p['threads']))
                out = self.fails(p)
                if out:
                    return p, out
        return None

    def accept(self, plan, out):
        self.plan = plan
        self.last = out

    def lists(self, plan):
        """the lists of a plan that may be shortened: (path)"""
        if 'threads' in plan:
            for i in range(len(plan['threads'])):
                yield ['threads', i]
        for k in plan.get('shrink', []):
            yield k

    @staticmethod
    def at(plan, path):
        for k in path:
            plan = plan[k]
        return plan

    def run(self):
        out = self.fails(self.plan)
        if not out:
            return None
        self.last = out
        # the simplest schedules first
        if 'schedule' in self.plan:
            for spec in ({'kind': 'serial'},):
                p = copy.deepcopy(self.plan)
                p['schedule'] = spec
                out = self.fails(p)
                if out:
                    self.accept(p, out)
        changed = True
        while changed and time.monotonic() < self.deadline:
            changed = False
            for path in list(self.lists(self.plan)):
                changed |= self.shorten(path)
            changed |= self.simplify()
        if 'schedule' in self.plan and self.last and self.last.get('segments'):
            p = copy.deepcopy(self.plan)
            p['schedule'] = {'kind': 'segments', 'segments': self.last['segments']}
            out = self.fails(p)
            if out:
                self.accept(p, out)
                self.segments()
        return self.plan, self.last

    def shorten(self, path):
        changed = False
        n = len(self.at(self.plan, path))
        size = n
        while size >= 1:
            i = 0
            while i < len(self.at(self.plan, path)):
                if time.monotonic() > self.deadline:
                    return changed
                p = copy.deepcopy(self.plan)
                lst = self.at(p, path)
                if len(lst) == 0:
                    break
                if path and path[0] == 'threads':
                    # keep the positions: results are referred to by number
                    cut = lst[i:i + size]
                    if all(o.get('op') == 'nothing' for o in cut):
                        i += size
                        continue
                    for j in range(i, min(i + size, len(lst))):
                        lst[j] = {'op': 'nothing'}
                    while lst and lst[-1] == {'op': 'nothing'}:
                        lst.pop()
                else:
                    del lst[i:i + size]
                r = self.fails_any(p, 4)
                if r:
                    self.accept(*r)
                    changed = True
                    if path and path[0] == 'threads':
                        i += size
                else:
                    i += size
            size //= 2
        return changed

    def simplify(self):
        """drop faults and unused operands"""
        changed = False
        while self.plan.get('warm'):
            p = copy.deepcopy(self.plan)
            p['warm']['n'] //= 2
            if not p['warm']['n']:
                p.pop('warm')
            r = self.fails_any(p, 2)
            if not r:
                break
            self.accept(*r)
            changed = True
        for ti, prog in enumerate(self.plan.get('threads', [])):
            for oi, o in enumerate(prog):
                for key in ('fault', 'errstate'):
                    if o.get(key):
                        p = copy.deepcopy(self.plan)
                        p['threads'][ti][oi].pop(key)
                        r = self.fails_any(p, 2)
                        if r:
                            self.accept(*r)
                            changed = True
        return changed

    def segments(self):
        """merge the pieces of the schedule while the violation stays"""
        size = max(1, len(self.plan['schedule']['segments']) // 2)
        while size >= 1 and time.monotonic() < self.deadline:
            i = 0
            while i < len(self.plan['schedule']['segments']):
                if time.monotonic() > self.deadline:
                    return
                p = copy.deepcopy(self.plan)
                del p['schedule']['segments'][i:i + size]
                out = self.fails(p)
                if out:
                    self.accept(p, out)
                else:
                    i += size
            size //= 2


# ---------------------------------------------------------------- the check

def main(args):
    prop = args.property.upper()
    consts = load_prop(prop)
    if args.replay:
        return replay(prop, args.replay)
    t0 = time.monotonic()
    quick = args.tier == 'quick'
    runs = args.runs or (consts.get('QUICK_RUNS', 6000) if quick else consts.get('THOROUGH_RUNS', 1 << 40))
    wall = args.wall or (consts.get('QUICK_WALL', 100) if quick else consts.get('THOROUGH_WALL', 1800))
    sys.path.insert(0, VERIF)
    from sim import nomem
    nomem.library()
    farm = Farm(prop)
    try:
        if args.determinism:
            return determinism(farm, prop, args, min(runs, args.runs or 200))
        return explore(farm, prop, args, runs, wall, t0, consts)
    finally:
        farm.stop()


def explore(farm, prop, args, runs, wall, t0, consts):
    known = known_findings(prop)
    lock = threading.Lock()
    state = {'next': [args.first + i for i in range(NZ)], 'done': 0, 'bad': None, 'error': None, 'stats': {},
             'hashes': set(), 'inconclusive': {}, 'nontrivial': set(), 'samples': [], 'known': {}, 'errors': 0}
    last_index = args.first + runs
    deadline = t0 + wall

    def worker(i):
        index = args.first + i
        while index < last_index and time.monotonic() < deadline:
            with lock:
                if state['bad'] is not None and index > state['bad'][0]:
                    return
                if state['error'] is not None:
                    return
            out = farm.run({'seed': args.seed, 'index': index, 'tier': args.tier,
                            'want_plan': index - args.first < 3}, i)
            with lock:
                if 'ended by signal' in out.get('error', ''):
                    # numpy itself does not survive every failing allocation
                    state['done'] += 1
                    state['inconclusive']['crash'] = state['inconclusive'].get('crash', 0) + 1
                elif 'error' in out:
                    state['errors'] += 1
                    print('run %d: %s' % (index, out['error'][-1500:]), file=sys.stderr)
                    if out.get('load') or state['errors'] > 3:
                        state['error'] = (index, out)
                        return
                else:
                    state['done'] += 1
                    s = out['stats']
                    h = s.pop('hash', 0)
                    state['hashes'].add(h)
                    if s.pop('nontrivial', False):
                        state['nontrivial'].add((h, out.get('digest')))
                    state['stats'] = add_stats(state['stats'], s)
                    if out.get('inconclusive'):
                        k = out['inconclusive']
                        state['inconclusive'][k] = state['inconclusive'].get(k, 0) + 1
                    if len(state['samples']) < 3 and out.get('plan'):
                        state['samples'].append({'index': index, 'plan': out['plan'], 'digest': out.get('digest')})
                    new, old = split_known(out, known)
                    for d in old:
                        state['known'][d['what']] = state['known'].get(d['what'], 0) + 1
                    if new and (state['bad'] is None or index < state['bad'][0]):
                        state['bad'] = (index, out, new)
            index += NZ

    threads = [threading.Thread(target=worker, args=(i,)) for i in range(NZ)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    search_s = time.monotonic() - t0
    for what in sorted(state['known']):
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    for d in known:
        if d['what'] not in state['known']:
            print('KNOWN-FINDING: property=%s %s' % (prop, d['what']))
    code = 0
    replay_path = None
    viols = []
    if state['bad'] is not None:
        index, out, new = state['bad']
        viols = new
        replay_path = write_replay(farm, prop, args, index, out, new, known, t0, consts)
        print('violated in run %d: %s' % (index, new[0]['class']))
        print(new[0]['detail'][:2000])
        print('VIOLATION property=%s replay=%s' % (prop, replay_path))
        code = 1
    elif state['error'] is not None or state['done'] == 0:
        print('harness error, no verdict: %s' % (state['error'],), file=sys.stderr)
        code = 2
    elif sum(state['inconclusive'].values()) > 0.02 * state['done'] + 2:
        print('too many inconclusive runs: %s' % state['inconclusive'], file=sys.stderr)
        code = 2
    write_evidence(prop, args, state, search_s, t0, consts, viols, replay_path, runs)
    return code


def write_evidence(prop, args, state, search_s, t0, consts, viols, replay_path, runs):
    s = state['stats']
    ops = s.pop('op_counts', {})
    cov = {
        'evaluations': state['done'],
        'distinct_nontrivial': len(state['nontrivial']),
        'rule': consts.get('RULE_TEXT', '') + '  Distinct: different sequence of pre-emption points, faults and '
        'outcomes (digest of the whole history).',
        'samples': [{'run': x['index'], 'plan': x['plan']} for x in state['samples']] or ['none'],
        'runs_per_hour': round(state['done'] / max(search_s, 1e-3) * 3600),
        'runs_wanted': runs if runs < 1 << 30 else 'until the time is up',
        'operations': s.get('ops', 0), 'operations_that_raised': s.get('raised', 0),
        'operation_kinds': ops,
        'simulated_steps': s.get('steps', 0),
        'simulated_time': 'one tick per line, jump, return or C call of the package: %d ticks; the package itself '
                          'reads no clock (simulated sleeping: %.3f s)' % (s.get('steps', 0), s.get('virtual_time', 0)),
        'context_switches': s.get('switches', 0), 'overlapping_pairs': s.get('overlaps', 0),
        'lock_operations': s.get('lock_ops', 0), 'lock_waits': s.get('lock_waits', 0),
        'faults_injected': s.get('faults', {}),
        'distinct_interleavings': len(state['hashes']),
        'interleaving_measure': 'hash of (thread, source line) at every pre-emption and fault of a run',
        'inconclusive_runs': state['inconclusive'],
        'known_findings_met': state['known'],
        'harness_errors': state['errors'],
        'real_components': 'all of quantities (from %s), numpy, CPython threads' % os.environ.get('VERIF_REPO', '/repo'),
        'stubbed_components': consts.get('STUBS', 'thread scheduler and locks (simulated)'),
    }
    for k, v in s.items():
        if k not in ('ops', 'raised', 'steps', 'virtual_time', 'switches', 'overlaps', 'lock_ops', 'lock_waits', 'faults'):
            cov[k] = v
    ev = {'property': prop, 'tier': args.tier if args.tier in ('quick', 'thorough') else 'quick', 'seed': args.seed,
          'level': 'exploration', 'coverage': cov, 'wall_s': round(time.monotonic() - t0, 2),
          'violations': [dict(v, replay=replay_path) for v in viols],
          'assumptions': [
              'a seeded sample of schedules and faults, not all of them',
              'threads switch only at line, jump, return and C-call boundaries of package code, as in CPython with a GIL',
              'sizes of units are compared with a table typed in by hand (93 units)']}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(path + '.tmp', path)


def write_replay(farm, prop, args, index, out, new, known, t0, consts):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-seed%d-run%d.json' % (prop, args.seed, index))
    plan, last = out['plan'], out
    home = out.get('home', index % NZ)
    tried = 0
    if not args.no_shrink:
        sh = Shrinker(farm, plan, home, new[0]['class'], known, time.monotonic() + consts.get('SHRINK_WALL', 60))
        r = sh.run()
        tried = sh.tried
        if r:
            plan, last = r
    rep = {'property': prop, 'seed': args.seed, 'index': index, 'home': home, 'class': new[0]['class'],
           'violation': (split_known(last, known)[0] or new)[0], 'digest': last.get('digest'),
           'shrink_attempts': tried, 'plan': plan, 'original_plan': out['plan'],
           'how': 'cd /verif && /opt/venv/bin/python check.py %s --replay %s' % (prop, path)}
    with open(path, 'w') as f:
        json.dump(rep, f, indent=1)
    return path


def replay(prop, path):
    rep = json.load(open(path))
    farm = Farm(prop)
    try:
        out = farm.run({'plan': rep['plan'], 'want_segments': True}, rep['home'])
    finally:
        farm.stop()
    if 'error' in out:
        print(out['error'])
        return 2
    print('digest %s, recorded %s: %s' % (out['digest'], rep['digest'],
                                          'identical' if out['digest'] == rep['digest'] else 'DIFFERENT'))
    for v in out['violations']:
        print(v['class'], '-', v['detail'][:3000])
    if any(v['class'] == rep['class'] for v in out['violations']):
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('not reproduced')
    return 0


def determinism(farm, prop, args, n):
    """every run twice, in different processes and order: same digest, same schedule"""
    other = Farm(prop)
    bad = []
    res = {}

    def one(f, tag, i):
        for index in (range(i, n, NZ) if tag == 0 else reversed(range(i, n, NZ))):
            out = f.run({'seed': args.seed, 'index': index, 'tier': args.tier, 'want_segments': True}, i)
            res[tag, index] = (out.get('digest'), out.get('segments'), out.get('error'))
    try:
        ts = [threading.Thread(target=one, args=(f, tag, i)) for tag, f in enumerate((farm, other)) for i in range(NZ)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        other.stop()
    for i in range(n):
        if res[0, i] != res[1, i]:
            bad.append(i)
    print('%d runs, %d differ between two executions %s' % (n, len(bad), bad[:10]))
    for i in bad[:2]:
        print(res[0, i][0], res[1, i][0], res[0, i][2], res[1, i][2])
    return 1 if bad else 0
