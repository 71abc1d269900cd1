"""C30: what a call returns depends on its arguments only."""
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from rv import core

RULE = ('Histories of library calls in fresh processes: every public function with many nearly equal argument sets, in random orders, repeated, from eight '
        'concurrent threads at a 10-microsecond switch interval, after the caller has overwritten every array it was handed, and interleaved with calls '
        'that fail half-way (injected exceptions, malformed input).  An offline checker over the recorded events compares all results of the same call '
        'between and within histories, the inputs before and after each call, and the global state of the process before and after the import and the calls.  '
        'Non-trivial: every call observed in at least two histories.')
ASSUMPTIONS = ['float64', 'threads share one process; JAX itself is thread-safe']
MUST_RUN = ['same-result', 'same-result-repeat', 'same-result-threads', 'same-result-scribble', 'same-result-faults', 'input-unmodified', 'global-import', 'global-calls', 'raises-alike']
GROUPS = ['conditional', 'filters-gauss', 'models', 'filters-nd', 'filters-1d', 'smoothers', 'numeric-a', 'numeric-b', 'combinatorial']
HEAVY = {'numeric-a', 'numeric-b', 'filters-1d', 'filters-nd', 'filters-gauss', 'smoothers', 'models', 'conditional'}


def tasks(tier):
    n = 1 if tier == 'quick' else 4
    return [(f'{g}-{k}', run, dict(g=g, k=k)) for g in GROUPS for k in range(n)]


def history(tmp, tag, spec):
    sp, out = os.path.join(tmp, tag + '.json'), os.path.join(tmp, tag + '.pkl')
    cwd = os.path.join(tmp, tag + '-cwd')
    os.mkdir(cwd)
    json.dump(spec, open(sp, 'w'))
    for attempt in range(3):  # a process may also be ended from outside (memory, a crash inside the numerical libraries): once more then
        try:
            p = subprocess.run([sys.executable, '-X', 'faulthandler', '-m', 'rv.hist', sp, out], cwd=cwd, capture_output=True, text=True, timeout=300)
            err = f'exit status {p.returncode}: {p.stderr[-2500:]}'
        except subprocess.TimeoutExpired as e:
            err = f'no end after {e.timeout} s'
            if attempt:
                return None, err
        if os.path.exists(out):
            break
        shutil.rmtree(cwd, ignore_errors=True)
        os.mkdir(cwd)
    else:
        return None, err
    return pickle.load(open(out, 'rb')), None


def run(mon, rng, tier, g, k):
    tmp = tempfile.mkdtemp(prefix='rv-c30-')
    seed = int(rng.integers(2 ** 31))
    try:
        modes = ['once', 'once', 'scribble', 'faults', 'threads'] if g not in HEAVY else ['scribble', 'faults', 'threads']
        if tier == 'thorough':
            modes = ['once'] * 3 + ['repeat', 'scribble', 'faults', 'threads', 'threads']
        base = {}
        for o, mode in enumerate(modes):
            spec = dict(group=g, seed=seed, order=o, mode=mode, threads=8 if g not in HEAVY else 4, share=1. if g not in HEAVY else .5 if tier == 'thorough' else .3)
            mon.case(group=g, mode=mode, order=o, seed=seed)
            h, err = history(tmp, f'h{o}', spec)
            if h is None:
                if core.REPO + '/' in err:
                    mon.violate('history-crash', f'a {mode} history ended the process: {err[-300:]}', stderr=err)
                    continue
                mon.skip('history-process-died')
                print(f'history {g} {mode} {o} gave no record: {err}', file=sys.stderr)
                continue
            check(mon, g, mode, o, h, base)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(mon, g, mode, o, h, base):
    for where, keys in h['changed'].items():
        mon.true('global-' + where, not keys, f'global state changed by the {"import" if where == "import" else "calls"}: {keys}')
    mon.saw('scribbled-arrays', h['counts']['scribbled'])
    mon.saw('injected-failures', h['counts']['faults'])
    seen = {}
    for (name, i), v, pos, val, modified in h['results']:
        mon.saw(name)
        c = (name, i)
        mon.case(group=g, call=name, variant=v, history=mode)
        mon.true('input-unmodified', not modified, f'{name} {v}: NumPy inputs {modified} were modified')
        if c not in base:
            base[c] = (val, mode, o)
            if isinstance(val, str):
                mon.violate('no-exception', f'{name} {v} raised {val}')
        elif o != base[c][2] or c in seen:
            want, m0, _ = base[c]
            if isinstance(val, str) or isinstance(want, str):
                mon.true('raises-alike', isinstance(val, str) and isinstance(want, str), f'{name} {v} in a {mode} history: {val if isinstance(val, str) else "returned"}; before ({m0}): {want if isinstance(want, str) else "returned"}')
                seen[c] = True
                continue
            mon.true('raises-alike', True)
            tag = {'once': 'same-result', 'repeat': 'same-result-repeat'}.get(mode, 'same-result-' + mode)
            ok = len(val) == len(want) and all(a.shape == b.shape and a.dtype == b.dtype and equal(a, b) for a, b in zip(val, want))
            mon.true(tag, ok, f'{name} {v} at {pos} of a {mode} history differs from the first result ({m0} history)',
                     got=val, want=want)
            if c in seen:
                mon.true('same-result-repeat', ok, f'{name} {v} repeated within a {mode} history differs')
        seen[c] = True


def equal(a, b):
    if a.dtype.kind not in 'fc':
        return np.array_equal(a, b)
    fin = np.isfinite(b)
    if not np.array_equal(np.isfinite(a), fin):
        return False
    if not fin.any():
        return True
    s = np.max(np.abs(b[fin]))
    return bool(np.max(np.abs(a[fin] - b[fin])) <= 1e-10 * s + 1e-300)
