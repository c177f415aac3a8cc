#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py and tools/manifest_data.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import manifest_data  # noqa: E402
import props  # noqa: E402

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')

claimed = set(manifest_data.CHECKS)
ids = [p['id'] for p in props.PROPS]
assert claimed <= set(ids)
checks = []
for pid in ids:
    if pid in claimed:
        level, technique, note = manifest_data.CHECKS[pid]
        checks.append(dict(
            property=pid,
            quick_cmd=f'python3 -m sa {pid} --tier quick',
            thorough_cmd=f'python3 -m sa {pid} --tier thorough',
            evidence_file=f'evidence/{pid}.json',
            technique=technique, level=level, level_note=note,
        ))
na = [dict(property=pid, reason=manifest_data.NOT_APPLICABLE.get(pid, 'check not built yet'))
      for pid in ids if pid not in claimed]
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(
        version=1, setup_cmd='true', checks=checks, not_applicable=na,
        notes=manifest_data.NOTES,
    ), f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')


def blocks():
    """Scenario and planted-bug tables of DESIGN.md."""
    sys.path.insert(0, ROOT)
    import importlib
    import pkgutil
    import sa.rules
    from sa import engine
    for m in pkgutil.iter_modules(sa.rules.__path__):
        importlib.import_module('sa.rules.' + m.name)
    rows = {}
    for sc in engine.REGISTRY:
        k = f"{sc.fn.__module__.split('.')[-1]}.{sc.fn.__name__}"
        r = rows.setdefault(k, [sc.pids, (sc.fn.__doc__ or '').strip().split('\n')[0], 0, 0])
        r[2 if sc.tier == 'quick' else 3] += 1
    yield 'scenarios', '\n'.join(['| Scenario | Properties | Variants quick / thorough only | What |', '|---|---|---|---|'] + [
        f'| `{k}` | {" ".join(v[0])} | {v[2]} / {v[3]} | {v[1]} |' for k, v in sorted(rows.items())])
    score = {}
    path = os.path.join(ROOT, 'tools', 'score.json')
    if os.path.exists(path):
        score = json.load(open(path))
    out = ['| Planted bug | Property | What it breaks | Caught by |', '|---|---|---|---|']
    d = os.path.join(ROOT, 'seeded')
    for i in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        m = json.load(open(os.path.join(d, i, 'meta.json')))
        out.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {score.get(i, '?')} |")
    yield 'seeded', '\n'.join(out)


path = os.path.join(ROOT, 'DESIGN.md')
text = open(path).read()
for name, body in blocks():
    a, b = f'<!-- {name}:begin -->', f'<!-- {name}:end -->'
    text = text[:text.index(a) + len(a)] + '\n' + body + '\n' + text[text.index(b):]
with open(path, 'w') as f:
    f.write(text)
