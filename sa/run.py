"""python3 -m sa.run C03 [--tier quick|thorough]"""
import sys, os, json, time, importlib, hashlib
from .common import run_tasks, VERIF, REPO

CHECKS = {}

def load_known():
    """known_findings.txt: 'KNOWN: property=<id> key=<rule|construct> <what fails>' entries; 'fixed:' entries suppress nothing"""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('KNOWN:'):
                d = dict(x.split('=', 1) for x in l.split()[1:3]); d['text'] = l.split(None, 3)[3].strip()
                out.append(d)
    return out


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv: tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = argv[argv.index('--only') + 1] if '--only' in argv else None
    verbose = '-v' in argv
    t0 = time.time()
    mod = importlib.import_module(f'sa.checks.{pid.lower()}')
    tasks = [(pid.lower(), label, fn, args) for label, fn, args in mod.tasks(tier) if only is None or only in label]
    limit = 780 if tier == 'quick' else 2 * 3600
    res = run_tasks(tasks, limit=limit)
    obl = {}; viol = []; undec = {}; visited = set(); samples = []; notes = []
    for r in res:
        for k, v in r['obl'].items():
            o = obl.setdefault(k, [0, 0, 0])
            for i in range(3): o[i] += v[i]
        viol += r['viol']
        for k, v in r['undec'].items(): undec[k] = undec.get(k, 0) + v
        visited |= {tuple(x) for x in r['visited']}
        samples += [f"{r['task']}: {s}" for s in r['samples'][:2]]; notes += r['notes']
    known = [k for k in load_known() if k['property'] == pid]
    new = []
    for v in viol:
        key = f"{v['rule']}|{v['construct'].replace(' ', '_')}"
        m = next((k for k in known if k['key'] == key), None)
        if m: print(f"KNOWN-FINDING: property={pid} {m['text']}")
        else: new.append(v)
    dis = sum(o[0] for o in obl.values()); und = sum(o[1] for o in obl.values()); kl = sum(o[2] for o in obl.values())
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
          'coverage': {'explanation': mod.RULE, 'obligations': dis + und + kl + len(viol), 'discharged': dis, 'undecided': und, 'beyond_bounds': kl,
                       'obligations_by_rule': {k: {'discharged': v[0], 'undecided': v[1], 'beyond_bounds': v[2]} for k, v in sorted(obl.items())},
                       'functions_analysed': sorted(f'{f}:{q}' for f, q in visited), 'n_functions_analysed': len(visited),
                       'tasks': len(tasks), 'task_walls': {r['task']: r.get('wall') for r in sorted(res, key=lambda r: -(r.get('wall') or 0))[:12]},
                       'undecided_reasons': dict(sorted(undec.items(), key=lambda t: -t[1])[:25]), 'samples': samples[:10], 'notes': notes[:20], 'analysed_tree': REPO},
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    print(f'{pid}: {len(tasks)} tasks, {dis} obligations discharged, {und} undecided, {kl} beyond the bounds, {len(visited)} functions analysed, {ev["wall_s"]} s')
    if verbose:
        for k, v in sorted(obl.items()): print('   ', k, v)
        for k, v in sorted(undec.items(), key=lambda t: -t[1])[:30]: print('    undecided', v, k)
        for r in sorted(res, key=lambda r: -(r.get('wall') or 0))[:12]: print('   ', r['task'], r.get('wall'))
    if new:
        rd = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, f'{pid}.json')
        with open(rp, 'w') as f: json.dump({'property': pid, 'command': f'python3 -m sa.run {pid} --tier {tier}', 'violations': new}, f, indent=1)
        seen = set()
        for v in new:
            k = (v['rule'], v['where'], v['detail'][:120])
            if k in seen: continue
            seen.add(k)
            if len(seen) > 12: break
            print(f"  [{v['rule']}] {v['where']}: {v['detail'][:700]}")
            if v['path']: print('      path:', '; '.join(v['path'][-10:])[:600])
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    if dis == 0 and only is None:
        print(f'{pid}: nothing could be analysed (the public functions the property is anchored to are missing or not understood)')
        return 2
    return 0


if __name__ == '__main__': sys.exit(main(sys.argv[1:]))
