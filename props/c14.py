"""C14: an interrupted import can simply be repeated."""
import builtins
import errno
import importlib
import importlib._bootstrap as bootstrap
import importlib._bootstrap_external as external
import os
import random
import sys
import types


import numpy as np

from sim import common, kernel, pure, runner, world

RULE_TEXT = ('A case is one simulated run in a process that never imported the package: 1-5 rounds of imports by 1-3 threads, '
             'most of them interrupted, short of memory or unable to read a file at a random instant, then an undisturbed '
             'import whose result is compared in full with that of an undisturbed process.  Non-trivial: a fault was '
             'delivered, or several threads imported at once.')
QUICK_RUNS = 4000
QUICK_WALL = 55

BASE = {}
CODE = {}
TARGETS = ['quantities'] * 6 + ['quantities.units', 'quantities.constants', 'quantities.umath', 'quantities.markup',
                                'quantities.units.length', 'quantities.unitquantity', 'quantities.quantity',
                                'quantities.constants.electron']


def sources():
    for root, dirs, files in sorted(os.walk(kernel.PKG)):
        if (root + '/').startswith(kernel.PKG_TESTS) or '__pycache__' in root:
            continue
        for f in sorted(files):
            if f.endswith('.py'):
                yield os.path.join(root, f)


def prepare():
    """once per zygote: compile the sources, and see what an undisturbed import amounts to"""
    world.quiet()
    world.prepare_paths()
    for path in sources():
        data = open(path, 'rb').read()
        try:
            CODE[path] = (data, compile(data, path, 'exec', dont_inherit=True))
        except SyntaxError:
            pass
    compile_source = external.SourceLoader.source_to_code

    def source_to_code(self, data, path, **k):
        c = CODE.get(path)
        if c is not None and bytes(data) == c[0]:
            return c[1]
        return compile_source(self, data, path, **k)
    external.SourceLoader.source_to_code = source_to_code
    kernel.install_import_seam()
    BASE.update(runner.in_fork(undisturbed))


def undisturbed():
    run = runner.Run({'threads': [[{'op': 'import'}]], 'schedule': {'kind': 'serial'}, 'op_cap': 1 << 40})
    spans = {}
    exec_module = external._LoaderBasics.exec_module

    def logged(self, module):
        a = run.k.now()
        try:
            return exec_module(self, module)
        finally:
            if module.__name__.startswith('quantities'):
                spans[module.__name__] = [a, run.k.now()]
    external._LoaderBasics.exec_module = logged
    recs = []

    def body(t, tid, prog):
        recs.append(run.call(t, 0, prog[0], lambda: importlib.import_module('quantities')))
    run.go(body)
    external._LoaderBasics.exec_module = exec_module
    if recs[0].exc is not None:
        raise recs[0].exc
    return {'steps': recs[0].steps, 'spans': spans, 'state': state()}


# ---------------------------------------------------------------- plans

def generate(rng, tier):
    # several threads: only after the imports that fail, and without faults.  CPython 3.12 hands the
    # half-initialised module of an import that fails to the threads that wait for it; nor does it wait for
    # a package that another thread is importing when a module inside it is asked for
    nt = rng.choice([1, 1, 1, 2, 3])

    def program(n, faulty, targets):
        prog = []
        for _ in range(n):
            o = {'op': 'import', 'what': rng.choice(targets), 'how': rng.choice(['import', 'import_module', 'from'])}
            if faulty and rng.random() < 0.95:
                k = rng.choice(['interrupt'] * 3 + ['nomem', 'nomem', 'alloc', 'io', 'io'])
                o['at'] = [k, rng.random(), rng.choice(['all', 'all', 'mod', 'mod', 'mod', 'edge']), rng.random(),
                           rng.choice([1, 1, 1, 0.3, 0.05])]
            prog.append(o)
        return prog
    first = program(rng.choice([1, 1, 1, 2, 3, 4] if nt == 1 else [0, 1, 1, 2]), True, TARGETS)
    threads = [first]
    if nt > 1:
        threads = [program(rng.choice([1, 1, 2]), False, ['quantities']) for _ in range(nt)]
    return {'first': first if nt > 1 else [], 'threads': threads,
            'schedule': runner.make_schedule_spec(rng, 20 * sum(map(len, threads))) if nt > 1 else {'kind': 'serial'},
            'op_cap': 6000000}


def fault_of(at):
    kind, x, where, y, scale = at
    n = BASE['steps']
    if kind == 'alloc':
        return ['alloc', 1 + int(x * 3500 * scale), 1 + int(3 * y)]
    if where == 'all':
        return [kind, 1 + int(x * n * scale)]
    spans = sorted(BASE['spans'].items())
    a, b = spans[int(y * len(spans))][1]
    if where == 'edge':
        # at the start or the end of a module
        return [kind, max(1, (a if x < 0.5 else b) + int((x * 2 % 1) * 20) - 10)]
    return [kind, max(1, a + int(x * (b - a)))]


# ---------------------------------------------------------------- reading files

class Files:
    """stands between the import system (and open()) and the file system: a chosen access of a thread fails"""

    def __init__(self):
        self.count = {}
        self.due = {}
        self.fired = {}

    def access(self, path):
        k = kernel.KERNEL
        t = k.current_sim_thread() if k is not None else None
        if t is None or not str(path).startswith(kernel.PKG[:-1]):
            return
        self.count[t.tid] = self.count.get(t.tid, 0) + 1
        if t.tid in self.due and self.count[t.tid] >= self.due[t.tid][0]:
            e = self.due.pop(t.tid)[1]
            self.fired[t.tid] = self.fired.get(t.tid, 0) + 1
            raise OSError(e, os.strerror(e), str(path))

    def install(self):
        io = external._io
        files = self

        class IO:
            def __getattr__(self, n):
                return getattr(io, n)

            def open_code(self, path):
                files.access(path)
                return io.open_code(path)

            def FileIO(self, path, mode='r'):
                files.access(path)
                return io.FileIO(path, mode)
        external._io = IO()
        stat = external._path_stat

        def path_stat(path):
            # Python takes a folder whose __init__.py it cannot see for a namespace package
            if str(path).endswith('.py') and not str(path).endswith('__init__.py'):
                files.access(path)
            return stat(path)
        external._path_stat = path_stat
        real_open = builtins.open

        def sim_open(path, *a, **k):
            if isinstance(path, (str, os.PathLike)):
                files.access(path)
            return real_open(path, *a, **k)
        builtins.open = sim_open


# ---------------------------------------------------------------- what an import provides

def describe(x):
    if isinstance(x, types.ModuleType):
        return ('module', x.__name__)
    if isinstance(x, type):
        return ('class', x.__module__, x.__qualname__, [(c.__module__, c.__qualname__) for c in x.__mro__],
                sorted(k for k in vars(x) if not k.startswith('__')))
    if isinstance(x, np.ndarray):
        t = type(x)
        home = sys.modules.get(t.__module__)
        return ('array', t.__module__, t.__name__, getattr(home, t.__name__, None) is t, world.canon(x))
    if isinstance(x, (types.FunctionType, types.BuiltinFunctionType)):
        return ('function', x.__module__, x.__qualname__)
    if isinstance(x, (dict, list, tuple, set)):
        return (type(x).__name__, len(x))
    if isinstance(x, (str, int, float, bool, type(None))):
        return ('plain', x)
    return ('other', type(x).__module__, type(x).__name__)


def state():
    """all that can be seen of the package"""
    world.load()
    pq = world.pq
    out = {}
    mods = sorted(m for m in sys.modules if m == 'quantities' or m.startswith('quantities.'))
    out['modules'] = mods
    for m in mods:
        mod = sys.modules[m]
        for n in sorted(vars(mod)):
            if n.startswith('_'):
                continue
            v = vars(mod)[n]
            out['%s.%s' % (m, n)] = describe(v)
            if isinstance(v, types.ModuleType) and v.__name__.startswith('quantities') and v is not sys.modules.get(v.__name__):
                out['%s.%s' % (m, n)] = 'another module object'
            if isinstance(v, type) and v.__module__.startswith('quantities.') \
                    and v is not getattr(sys.modules.get(v.__module__), v.__name__, None):
                out['%s.%s' % (m, n)] = 'a class of another import'
    for l in sorted(world.LABELS):
        u = pq.unit_registry[l]
        out['label ' + l] = describe(u)
    for c, d in world.defaults().items():
        out['default ' + c] = d
    for c in world.DEFAULT_CLASSES:
        d = getattr(pq, c).get_default_unit()
        out['default class ' + c] = None if d is None else describe(d)
    out['unicode'] = pq.markup.config.use_unicode
    out['preferred'] = len(pq.quantity.PREFERRED)
    out['numpy'] = world.numpy_state()
    out['filters'] = world.filters()
    rng = random.Random(11)
    out.update(battery(rng))
    return out


def outcome(fn):
    try:
        return world.canon(fn())
    except Exception as e:
        return world.canon_exc(e)


def battery(rng):
    pq = world.pq
    out = {}
    pool = pure.make_pool(rng, large=0)
    objs = [world.build(s) for s in pool]
    g = pure.Gen(rng, pool)
    names = sorted(pure.OPS)
    w = pure.weights(names)
    for i in range(150):
        o = pure.gen_op(g, names, w)
        if o:
            out['op %d %s' % (i, o['op'])] = outcome(lambda: pure.call(o, pure.operands(o, objs, {})))
    labels = sorted(world.LABELS)
    for i in range(60):
        ls = rng.sample(labels, 3)
        text = '%s*%s**2/%s' % tuple(ls)

        def render():
            d = pq.Quantity(1.0, text).dimensionality
            return (str(d), d.unicode, d.latex, d.html)
        out['render ' + text] = outcome(render)
    out['unit table'] = outcome(lambda: [(l, world.unit_facts(pq.unit_registry[l].copy())) for l in labels[::15]])
    out['same'] = outcome(lambda: [l for l in ('m', 's', 'kg', 'J', 'rad', 'degC', 'percent', 'dimensionless', 'L', 'bit') if not (
        pq.unit_registry[l] == getattr(pq, l, pq.unit_registry[l])
        and hash(pq.unit_registry[l]) == hash(getattr(pq, l, pq.unit_registry[l])))])
    out['mixed'] = outcome(lambda: [(2 * getattr(pq, l) + 3 * pq.unit_registry[l]) for l in ('m', 's', 'kg', 'J', 'L', 'eV')])
    out['classes'] = outcome(lambda: [pq.unit_registry[n] is getattr(pq, n) for n in ('UnitQuantity', 'CompoundUnit')])

    def copied():
        r = []
        for u in (pq.m, pq.dimensionless, pq.CompoundUnit('m/s'), pq.constants.c, pq.J):
            for x in (pq.Quantity(u), pq.Quantity(u, u.dimensionality)):
                x *= 2
                x[...] = 3 * u
                r.append(x)
        return r
    out['copied'] = outcome(copied)
    out['zdefine'] = outcome(lambda: pq.UnitQuantity('zimp', 3 * pq.m, symbol='zi'))
    out['zuse'] = outcome(lambda: (5 * pq.unit_registry['zi']).rescale('m'))
    out['ztaken'] = outcome(lambda: pq.UnitQuantity('m', 3 * pq.s))
    out['constants'] = outcome(lambda: [(n, pq.constants.__dict__[n].simplified) for n in sorted(vars(pq.constants))
                                        if isinstance(vars(pq.constants)[n], pq.UnitConstant)])

    def defaults():
        r = []
        for kw in ({'length': 'ft'}, {'system': 'cgs'}, {'mass': 'lb', 'time': 'h'}, {'system': 'SI'}):
            pq.set_default_units(**kw)
            r += [x.simplified for x in (3 * pq.N, 2 * pq.J / pq.mi, pq.constants.natural_unit_of_velocity)]
        return r
    out['zdefaults'] = outcome(defaults)
    return out


def compare(a, b):
    for k in a:
        if k not in b:
            return '%s is missing' % k
        if a[k] != b[k]:
            return '%s: %s; without disturbance %s' % (k, world.short(b[k]), world.short(a[k]))
    for k in b:
        if k not in a:
            return '%s exists only after the disturbance: %s' % (k, world.short(b[k]))
    return None


def do_import(o):
    what = o['what']
    if o['how'] == 'import':
        __import__(what)
    elif o['how'] == 'import_module':
        importlib.import_module(what)
    else:
        head, _, last = what.rpartition('.')
        if head:
            __import__(head, fromlist=[last])
        else:
            __import__(what, fromlist=['m', 'Quantity', 'units'])
    return None


def works(what):
    """something is wrong with a package whose import has just succeeded"""
    q = sys.modules.get('quantities')
    if q is None and '.' in what:
        return None     # a submodule left by a failed import; Python then does not import its parent
    try:
        x = q.Quantity([1.0, 2.0], 'km/h').rescale('m/s')
        y = 2 * q.ft + 3 * q.m
        if abs(float(x[0]) - 1 / 3.6) > 1e-12 or abs(float(y.magnitude) - (2 + 3 / 0.3048)) > 1e-9:
            return '%s %s' % (x, y)
        if str(q.constants.natural_unit_of_velocity.dimensionality) != 'c' or q.markup.config.use_unicode:
            return 'constants or markup'
        if what in sys.modules and np.sqrt(4 * q.m ** 2).dimensionality != q.m.dimensionality:
            return 'sqrt'
    except Exception as e:
        return '%s: %s' % (type(e).__name__, e)
    return None


def execute(plan, phase, carry):
    files = Files()
    files.install()
    io = [0]
    run = None

    def body(t, tid, prog):
        for i, o in enumerate(prog):
            if o['op'] == 'nothing':
                continue
            at = o.get('at')
            op = o
            files.count[tid] = 0
            files.due.pop(tid, None)
            files.fired[tid] = 0
            if at and at[0] == 'io':
                files.due[tid] = (1 + int(at[1] * 150 * at[4]), [errno.EIO, errno.EMFILE, errno.EACCES][int(at[3] * 3)])
            elif at:
                op = dict(o, fault=fault_of(at))
            r = run.call(t, i, op, lambda: do_import(o))
            files.due.pop(tid, None)
            fired = r.fired or ('io' if files.fired[tid] else None)
            io[0] += files.fired[tid]
            if r.exc is not None:
                if not fired:
                    run.violate('import-fails', '%r: %s' % (r, str(r.exc)[:300]))
                    return
            else:
                bad = works(o['what'])
                if bad:
                    run.violate('half-imported', '%r%s: %s' % (r, ' (a file could not be read)' if files.fired[tid] else '', bad))
                    return

    before = {}
    if plan.get('first'):
        run = runner.Run(dict(plan, threads=[plan['first']], schedule={'kind': 'serial'}))
        run.go(body)
        before = run.k.faults_fired
        if run.violations or run.blocked():
            if run.blocked():
                run.violate('blocked', run.blocked())
            return run.result(nontrivial=True)
    run = runner.Run(plan)
    run.go(body)
    if run.blocked():
        run.violate('blocked', run.blocked())
    if run.inconclusive is None and not run.violations:
        try:
            importlib.import_module('quantities')
        except BaseException as e:
            run.violate('import-fails', 'the undisturbed import afterwards: %s: %s' % (type(e).__name__, str(e)[:300]))
        else:
            try:
                now = state()
            except Exception as e:
                run.violate('half-imported', '%s: %s' % (type(e).__name__, str(e)[:300]))
            else:
                c = compare(BASE['state'], now)
                if c:
                    run.violate('differs', c)
    faults = dict(before)
    if io[0]:
        faults['io'] = io[0]
    return run.result(nontrivial=bool(run.k.faults_fired or faults or run.stats()['overlaps']), extra={'faults': faults})
