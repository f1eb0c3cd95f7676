#!/usr/bin/env python3
"""seedtest.py ID... [--no-check] [--tests-only]: proves a planted bug in a scratch copy of /repo, then runs its check.

Uses /tmp/seedtest-<ID>, which it removes.  Not used by any check."""
import json
import os
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout)
    return p.returncode, p.stdout


def tests(d):
    x = d + '/junit.xml'
    sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--ignore=conda.recipe', '--doctest-glob=README.rst',
        '-o', 'junit_family=xunit2', '--junitxml=' + x], d, {'PYTHONHASHSEED': '0', 'PY_IGNORE_IMPORTMISMATCH': '1',
                                                           'PYTHONPATH': d})
    ok = set()
    for c in ET.parse(x).iter('testcase'):
        if not any(k.tag in ('failure', 'error', 'skipped') for k in c):
            ok.add(c.get('classname') + '::' + c.get('name'))
    stable = {s for s in json.load(open('/opt/vp/BASELINE.json'))['stable']}
    miss = [s for s in stable if s not in ok and not s.startswith('README')]
    return miss


def one(i, check=True):
    s = os.path.join(VERIF, 'seeded', i)
    meta = json.load(open(s + '/meta.json'))
    d = '/tmp/seedtest-' + i
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    out = [i]
    try:
        c, o = sh(['bash', s + '/demo.sh'], d, timeout=300)
        out.append('demo clean %s' % ('ok' if c == 0 else 'FAILS ' + o[-400:]))
        c, o = sh(['git', 'apply', s + '/patch.diff'], d)
        if c:
            return out + ['patch does not apply: ' + o[-300:]]
        c, o = sh(['bash', s + '/demo.sh'], d, timeout=300)
        out.append('demo broken %s' % ('ok' if c else 'PASSES ' + o[-400:]))
        if '-v' in sys.argv:
            out.append(o[-500:])
        m = tests(d)
        out.append('tests ok' if not m else 'TESTS FAIL %s' % m[:5])
        if check:
            for p in [meta['property']] + [a for a in sys.argv if a.startswith('+')]:
                p = p.lstrip('+')
                c, o = sh([PY, VERIF + '/check.py', p], VERIF, {'VERIF_REPO': d, 'VERIF_SEED': '1'}, 1000)
                v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
                cls = [l for l in o.splitlines() if 'class' in l][:2]
                out.append('%s: %s %s' % (p, 'CAUGHT' if c == 1 and v else 'missed (exit %d)' % c, v[:1]))
                out.append('\n      '.join(o.splitlines()[-4:]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


if __name__ == '__main__':
    ids = [a for a in sys.argv[1:] if a[0] not in '-+'] or sorted(os.listdir(VERIF + '/seeded'))
    for i in ids:
        print('\n   '.join(one(i, '--no-check' not in sys.argv)), flush=True)
