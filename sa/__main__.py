"""python3 -m sa <PROPERTY> --tier quick|thorough"""
import argparse
import importlib
import json
import os
import pkgutil
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def load_rules():
    from . import rules
    for m in sorted(pkgutil.iter_modules(rules.__path__), key=lambda m: m.name):
        importlib.import_module(f'sa.rules.{m.name}')


def known_findings():
    path = os.path.join(ROOT, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding:'):
                # finding: property=C30 key=<scenario: rule> | <description>
                head, _, desc = line[len('finding:'):].partition('|')
                pid, _, key = head.strip().partition(' key=')
                out.append((pid.strip()[len('property='):], key.strip(), desc.strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=('quick', 'thorough'))
    ap.add_argument('--repo', default=os.environ.get('SA_REPO', '/repo'))
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t = time.time()
    from . import engine
    from .loader import AnalysisBroken
    load_rules()
    pid = a.property
    if pid == 'ALL':
        pids = sorted({p for sc in engine.REGISTRY for p in sc.pids})
    else:
        pids = [pid]
    try:
        engine.load(a.repo)
    except (AnalysisBroken, SyntaxError) as e:
        print(f'analysis broken: {e}')
        return 2
    res = engine.run(pids, a.tier, a.only, a.jobs)
    if not res:
        print(f'no scenario decides {pid}')
        return 2
    code = 0
    kf = known_findings()
    if pid == 'ALL':
        have = {sc.name for sc in engine.REGISTRY} & {r['name'] for r in res}
        pids = [p for p in pids if any(p in sc.pids and sc.name in have for sc in engine.REGISTRY)]
    for p in pids:
        code = max(code, report(p, a, engine, res, kf, t, quiet=pid == 'ALL'))
    if pid == 'ALL':
        for r in res:
            for v in r['violations']:
                print(f"{','.join(v['pids'])} {v['rule']} [{r['name']}] at {v['where']}: {v['message'][:400]}")
    if a.v:
        for r in sorted(res, key=lambda r: -r['wall']):
            print(f"{r['wall']:7.2f}s {r['paths']:5d} paths {r['discharged']:5d}/{r['obligations']} undecided {r['undecided']}"
                  f" {'' if r['complete'] else 'INCOMPLETE '}{r['name']}")
            for n in r['notes'][:6]:
                print('         note:', n)
            if r.get('error'):
                print(r['error'])
    return code


def report(pid, a, engine, res, kf, t, quiet=False):
    names = {sc.name for sc in engine.REGISTRY if pid in sc.pids + (sc.deep if a.tier == 'thorough' else ())}
    mine = [r for r in res if r['name'] in names]
    viol = [(r, v) for r in mine for v in r['violations'] if pid in v['pids']]
    os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
    known, new = [], []
    for r, v in viol:
        hit = [k for k in kf if k[0] == pid and k[1] == v['key']]
        (known if hit else new).append((r, v, hit))
    seen = set()
    for r, v, hit in known:
        if hit[0][2] not in seen:
            seen.add(hit[0][2])
            print(f'KNOWN-FINDING: property={pid} {hit[0][2]}')
    for f in os.listdir(os.path.join(ROOT, 'evidence', 'replay')):
        if f.startswith(pid + '-'):
            os.remove(os.path.join(ROOT, 'evidence', 'replay', f))
    for i, (r, v, _) in enumerate(new, 1):
        rp = os.path.join('evidence', 'replay', f'{pid}-{i}.json')
        with open(os.path.join(ROOT, rp), 'w') as f:
            json.dump(dict(property=pid, scenario=r['name'], rule=v['rule'], message=v['message'], at=v['where'],
                           abstract_paths=v['paths'], path_decisions=v['trace'], interface_events=v['events']), f, indent=1)
        if i <= 20 and not quiet:
            print(f"{pid} {v['rule']} [{r['name']}] at {v['where']}: {v['message'][:600]}")
            print(f'VIOLATION property={pid} replay={rp}')
    decided = sum(r['discharged'] for r in mine)
    obligations = sum(r['obligations'] for r in mine)
    undecided = sum(r['undecided'] for r in mine)
    funcs = sorted({x for r in mine for x in r['functions']})
    rules = {}
    for r in mine:
        for k, n in r['rules'].items():
            rules[k] = rules.get(k, 0) + n
    ev = dict(
        property=pid, tier=a.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
        coverage=dict(
            explanation='Path-sensitive abstract interpretation of the library source (nothing is executed): every scenario '
                        'is an abstract user program with unknown names, values and documents; all paths of the library '
                        'code it reaches are enumerated and each rule is an obligation on every path.',
            scenarios=len(mine), abstract_paths=sum(r['paths'] for r in mine), branch_decisions=sum(r.get('branches', 0) for r in mine),
            obligations=obligations, discharged=decided, undecided=undecided,
            rules=rules, functions_analysed=len(funcs), functions=funcs,
            incomplete_scenarios=[dict(name=r['name'], notes=r['notes'][:5]) for r in mine if not r['complete']],
            samples=[dict(scenario=r['name'], paths=r['paths'], obligations=r['obligations']) for r in mine[:12]],
        ),
        assumptions=['the model of the Python built-ins, pydantic metaclass and native XML elements in sa/externals.py and '
                     'sa/harness.py'],
        wall_s=round(time.time() - t, 2), violations=len(new))
    with open(os.path.join(ROOT, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{pid}: {len(mine)} scenarios, {ev["coverage"]["abstract_paths"]} paths, {decided}/{obligations} obligations '
          f'discharged, {undecided} undecided, {len(new)} violations, {len(known)} known, {ev["wall_s"]} s')
    bad = [r['name'] for r in mine if not r['complete']]
    if bad:
        print(f"  incomplete: {len(bad)} scenarios: {', '.join(bad[:5])}")
    if new:
        return 1
    if not decided and not known:
        for r in mine:
            for n in r['notes'][:3]:
                print(f"  {r['name']}: {n}")
        print('nothing could be decided')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
