"""A process that has loaded the package and forks one child per simulated run.

Reads one JSON request per line on stdin, answers with one JSON line on stdout.
"""
import ctypes
import gc
import importlib
import json
import os
import random
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


WARM = 0.04     # how many runs have a long history before them


def run_seed(seed, prop, index):
    return '%s/%s/%s' % (seed, prop, index)


def do(req):
    from sim import common, world
    prop = importlib.import_module('props.' + req['prop'].lower())
    plan = req.get('plan')
    if plan is None:
        rng = random.Random(run_seed(req['seed'], req['prop'], req['index']))
        plan = prop.generate(rng, req['tier'])
        if world.pq is not None and rng.random() < WARM:
            plan['warm'] = common.gen_warm(rng)
    phase = req.get('phase', 0)
    out = prop.execute(plan, phase, req.get('carry'))
    if out.get('violations') or out.get('next') is not None or req.get('want_plan') or out.get('inconclusive'):
        out['plan'] = plan
    elif not req.get('want_segments'):
        out.pop('segments', None)
    return out


def serve(req, timeout):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            null = os.open(os.devnull, os.O_RDONLY)
            os.dup2(null, 0)
            os.dup2(2, 1)
            gc.disable()
            try:
                out = do(req)
            except BaseException as e:
                out = {'error': ''.join(traceback.format_exception(e))[-3000:]}
            data = json.dumps(out, default=_default).encode()
            while data:
                n = os.write(w, data[:1 << 16])
                data = data[n:]
        except BaseException:
            traceback.print_exc()
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = time.monotonic() + timeout
    killed = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            killed = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if ready:
            c = os.read(r, 1 << 20)
            if not c:
                break
            chunks.append(c)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if killed:
        return {'error': 'wall-clock limit of %d s' % timeout, 'timeout': True}
    if os.WIFSIGNALED(status):
        return {'error': 'the run was ended by signal %d' % os.WTERMSIG(status)}
    try:
        return json.loads(b''.join(chunks))
    except ValueError:
        return {'error': 'no answer, status %d' % status}


def _default(x):
    import numpy as np
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return float(x)
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, (set, frozenset)):
        return sorted(x)
    return repr(x)


def refuse(err):
    for line in sys.stdin:
        sys.stdout.write(json.dumps({'error': err, 'load': True}) + '\n')
        sys.stdout.flush()


def main():
    # addresses must not differ between two runs of the same seed
    libc = ctypes.CDLL(None)
    if not os.environ.get('SIM_NO_ASLR'):
        os.environ['SIM_NO_ASLR'] = '1'
        try:
            if libc.personality(0xffffffff) & 0x40000 == 0 and libc.personality(0x40000) != -1:
                os.execve(sys.executable, [sys.executable] + sys.argv, os.environ)
        except OSError:
            pass
    sys.path.insert(0, VERIF)
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/nonexistent/pycache'
    import numpy                                    # noqa
    mode = sys.argv[1]
    from sim import kernel
    kernel.install_seams()
    kernel.install_points()
    from sim import world, runner, pure, common, nomem     # noqa
    nomem.setup()
    if mode != 'bare':
        try:
            world.load()
        except Exception:
            # the package cannot be used at all: every request is answered with this
            refuse(traceback.format_exc()[-3000:])
            return
    kernel.install_import_seam()
    for p in sys.argv[2:]:
        m = importlib.import_module('props.' + p.lower())
        if mode == 'bare':
            try:
                m.prepare()
            except Exception:
                refuse(traceback.format_exc()[-3000:])
                return
    gc.collect()
    gc.freeze()
    for line in sys.stdin:
        req = json.loads(line)
        out = serve(req, req.get('timeout', 60))
        sys.stdout.write(json.dumps(out) + '\n')
        sys.stdout.flush()


if __name__ == '__main__':
    main()
