#!/usr/bin/env python3
"""Which planted bugs are caught by the check of their property: score.py [id ...]. Works on scratch copies."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [x for x in sorted(os.listdir(ROOT + '/seeded')) if not sys.argv[1:] or x.split('-')[0] in sys.argv[1:] or x in sys.argv[1:]]
bad = []
SCORE = ROOT + '/tools/score.json'
score = json.load(open(SCORE)) if os.path.exists(SCORE) else {}
for i in ids:
    d = f'{ROOT}/seeded/{i}'
    pid = json.load(open(d + '/meta.json'))['property']
    w = tempfile.mkdtemp(prefix='score_', dir='/tmp')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', w + '/r'], check=True)
        subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=w + '/r', check=True)
        r = subprocess.run([sys.executable, '-m', 'sa', pid, '--repo', w + '/r'], cwd=ROOT, capture_output=True, text=True)
        hit = r.returncode == 1 and f'VIOLATION property={pid}' in r.stdout
        print(f'{i} {pid} {"CAUGHT" if hit else "missed (%d)" % r.returncode}', r.stdout.strip().splitlines()[0][:230] if hit else r.stdout.strip()[-300:])
        sys.stdout.flush()
        score[i] = f'{pid}' if hit else 'missed'
        json.dump(score, open(SCORE, 'w'), indent=1, sort_keys=True)
        if not hit:
            bad.append(i)
    finally:
        shutil.rmtree(w, ignore_errors=True)
print(f'{len(ids) - len(bad)}/{len(ids)} caught; missed: {bad}')
