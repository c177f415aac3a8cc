#!/usr/bin/env python3
"""Makes and confirms planted bugs: mkbug.py SPEC.py, where SPEC.py defines BUGS = [dict(id, property, needs, breaks, edits, demo)].

Everything happens in a scratch copy of /repo; the folder /verif/seeded/<id> is written only if the change applies, the
existing tests pass with both backends and the demonstration passes without and fails with the change."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
DEMO_SH = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
%s
'''


def baseline():
    return set(json.load(open('/opt/vp/BASELINE.json')).get('passed', [])) or None


def tests(cwd):
    for std in ('false', 'true'):
        env = dict(os.environ, FORCE_STD_XML=std, PYTHONPATH=cwd, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=cwd, env=env,
                           capture_output=True, text=True)
        if r.returncode:
            return r.stdout[-1500:]
    return None


def demo(cwd, d):
    env = dict(os.environ)
    env.pop('PYTHONPATH', None)
    return subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=cwd, env=env, capture_output=True, text=True, timeout=300)


def make(b):
    w = tempfile.mkdtemp(prefix='bug_', dir='/tmp')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', w + '/r'], check=True)
        cwd = w + '/r'
        d = w + '/seed'
        os.makedirs(d)
        with open(d + '/demo.py', 'w') as f:
            f.write(b['demo'].lstrip('\n'))
        runs = b.get('env') or ['']
        with open(d + '/demo.sh', 'w') as f:
            f.write(DEMO_SH % '\n'.join(f'{e + " " if e else ""}{PY} "$here/demo.py" || exit 1' for e in runs))
        r = demo(cwd, d)
        if r.returncode:
            return f'demo fails on the unchanged tree: {r.stdout[-600:]}{r.stderr[-900:]}'
        for path, old, new in b['edits']:
            p = f'{cwd}/{path}'
            s = open(p).read()
            if s.count(old) != 1:
                return f'{path}: {s.count(old)} occurrences of {old!r}'
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=cwd, capture_output=True, text=True).stdout
        t = tests(cwd)
        if t:
            return f'tests fail: {t}'
        r = demo(cwd, d)
        if not r.returncode:
            return 'demo passes with the change'
        out = f'{ROOT}/seeded/{b["id"]}'
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        open(out + '/patch.diff', 'w').write(diff)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(out + '/meta.json', 'w'), indent=1)
        return None
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    from concurrent.futures import ThreadPoolExecutor
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    bugs = [b for b in ns['BUGS'] if len(sys.argv) < 3 or b['id'] in sys.argv[2:]]
    with ThreadPoolExecutor(8) as ex:
        for b, r in zip(bugs, ex.map(make, bugs)):
            print(f'{b["id"]}: {"ok" if r is None else "REFUSED " + r}')


main()
