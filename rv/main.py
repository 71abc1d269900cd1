"""Runner: ./check <ID> [quick|thorough] -> verdict, evidence, replay file."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

WATCHDOG = {'quick': 800., 'thorough': 3.5 * 3600}

# how many independent draws of its random workload the quick tier of a cheap check makes
REPEAT = {'C01': 3, 'C03': 2, 'C07': 2, 'C10': 3, 'C11': 4, 'C15': 4, 'C16': 2, 'C17': 2, 'C18': 2, 'C19': 3, 'C23': 2, 'C24': 2, 'C25': 3,
          'C26': 2, 'C27': 2, 'C28': 3}


def all_tasks(mod, prop, tier):
    ts = mod.tasks(tier)
    return ts + [(f'{n}~{k}', f, kw) for k in range(2, REPEAT.get(prop, 1) + 1 if tier == 'quick' else 2) for n, f, kw in ts]


def _worker_init():
    import warnings
    warnings.filterwarnings('ignore')
    import jax
    if os.environ.get('RV_X64', '1') == '1':
        jax.config.update('jax_enable_x64', True)


def _worker(arg):
    prop, modname, idx, tier, seed = arg
    from rv.core import run_task
    mod = importlib.import_module(modname)
    name, fn, kwargs = all_tasks(mod, prop, tier)[idx]
    return run_task(prop, modname, name, fn, kwargs, tier, seed)


def known_findings(prop):
    """Committed list of genuine defects recorded, not repaired.  Matching is by oracle and call site (task key)."""
    path = os.path.join(HERE, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get('property') == prop and d.get('status') == 'known':
                    out.append(d)
    return out


def matches(kf, task, v):
    return task.startswith(kf['match']['task']) and v['oracle'] == kf['match']['oracle'] \
        and all(str(v['case'].get(k)) == str(x) for k, x in kf['match'].get('case', {}).items())


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--task')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only = a.task
    if a.replay:
        rp = json.load(open(a.replay))
        tier, seed, only = rp['tier'], rp['seed'], None
        only_exact = {x['task'] for x in rp['violations']}
    else:
        only_exact = None
    os.environ['VERIF_TIER'], os.environ['VERIF_SEED'] = tier, str(seed)
    t0 = time.time()
    modname = f'rv.props.{a.prop.lower()}'
    mod = importlib.import_module(modname)  # property modules import jax lazily, inside tasks
    if getattr(mod, 'X64', True) is False:
        os.environ['RV_X64'] = '0'
    ts = all_tasks(mod, a.prop, tier)
    names = [t[0] for t in ts]
    assert len(set(names)) == len(names), 'duplicate task names'
    sel = [i for i, n in enumerate(names) if (only is None or only in n) and (only_exact is None or n in only_exact)]
    ctx = mp.get_context('fork')
    reports, watchdog = [], False
    with ctx.Pool(min(a.jobs, max(1, len(sel))), initializer=_worker_init,
                  maxtasksperchild=getattr(mod, 'MAX_TASKS_PER_CHILD', None)) as pool:
        it = pool.imap_unordered(_worker, [(a.prop, modname, i, tier, seed) for i in sel], chunksize=1)
        for _ in sel:
            try:
                r = it.next(timeout=max(1., WATCHDOG[tier] - (time.time() - t0)))
            except mp.TimeoutError:
                watchdog = True
                pool.terminate()
                break
            reports.append(r)
            if a.v:
                print(f"{r['wall']:7.1f}s {r['task']}  cases={r['cases']} evals={sum(r['evals'].values())} "
                      f"viol={len(r['violations'])} skip={r['skipped']}", flush=True)
    reports.sort(key=lambda r: names.index(r['task']))

    def merge(key):
        out = {}
        for r in reports:
            for k, v in r[key].items():
                out[k] = out.get(k, 0) + v
        return dict(sorted(out.items()))

    events, evals, skipped = merge('events'), merge('evals'), merge('skipped')
    margin = {}
    for r in reports:
        for k, v in r['margin'].items():
            margin[k] = max(margin.get(k, 0.), v)
    distinct = set()
    for r in reports:
        distinct |= {(r['task'], h) for h in r['nontrivial']}
    kfs = known_findings(a.prop)
    viols, hits = [], {}
    for r in reports:
        for v in r['violations']:
            kf = next((k for k in kfs if matches(k, r['task'], v)), None)
            if kf is not None:
                hits[kf['id']] = kf
            else:
                viols.append({'task': r['task'], **v})
    harness = [(r['task'], r['harness_error']) for r in reports if r['harness_error']]
    partial = only is not None or only_exact is not None
    missing = [] if partial else [t for t in getattr(mod, 'MUST_RUN', []) if evals.get(t, 0) == 0]
    wall = time.time() - t0
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not partial:
        samples = [s for r in reports for s in r['samples']][:8]
        ev = {'property': a.prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
              'coverage': {'evaluations': sum(r['cases'] for r in reports), 'distinct_nontrivial': len(distinct),
                           'rule': mod.RULE, 'samples': samples, 'tasks': len(reports),
                           'api_events_observed': events, 'oracle_evaluations': evals,
                           'out_of_numerical_reach': skipped,
                           'worst_error_over_tolerance': {k: float(f'{v:.3g}') for k, v in sorted(margin.items())}},
              'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2), 'violations': len(viols)}
        with open(os.path.join(HERE, 'evidence', f'{a.prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    for kf in hits.values():
        print(f"KNOWN-FINDING: property={a.prop} {kf['what']}")
    print(f"{a.prop} {tier} seed={seed}: {len(reports)} tasks, {sum(r['cases'] for r in reports)} cases "
          f"({len(distinct)} distinct non-trivial), {sum(events.values())} API events, "
          f"{sum(evals.values())} oracle evaluations, {wall:.1f}s")
    if a.v:
        print(json.dumps({'evals': evals, 'skipped': skipped,
                          'margin': {k: float(f'{v:.2g}') for k, v in sorted(margin.items())}}, indent=1))
    if viols:
        path = os.path.join(HERE, 'evidence', f'{a.prop}.replay.json')
        with open(path, 'w') as f:
            json.dump({'property': a.prop, 'tier': tier, 'seed': seed,
                       'replay': f'./check {a.prop} --replay {path}', 'violations': viols}, f, indent=1, default=str)
        for v in viols[:5]:
            print(f"  violated {v['oracle']} in {v['task']}: {v['message'][:300]}")
            print(f"     case {json.dumps(v['case'], default=str)[:400]}")
        print(f'VIOLATION property={a.prop} replay={path}')
        sys.exit(1)
    if watchdog:
        print('INCONCLUSIVE: watchdog fired before every task reported')
        sys.exit(3)
    if harness:
        for t, e in harness[:3]:
            print(f'HARNESS ERROR in {t}\n{e}')
        sys.exit(3)
    if missing:
        print(f'INCONCLUSIVE: oracles never evaluated: {missing}')
        sys.exit(3)
    sys.exit(0)


if __name__ == '__main__':
    main()
