"""Plants bugs: verifies each in scratch copies (stable tests, demo) and runs the checks against it.

usage: plant.py verify [ids...]   build, stable tests, demo with and without; writes seeded/<id>/
       plant.py catch [-t tier] [ids...]    run the property's check on a scratch copy with the patch
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
TMP = '/tmp/plant'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO_SH = '''#!/bin/bash
# run with the repository as the current directory
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu PYTHONPATH="$PWD" TF_CPP_MIN_LOG_LEVEL=3
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''
HEAD = '''import os
import sys
import numpy as np
import jax
import jax.numpy as jnp
jax.config.update('jax_enable_x64', True)
'''


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=dict(os.environ, **(env or {})), capture_output=True, text=True, timeout=timeout)


def copy(bug, name):
    d = os.path.join(TMP, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(TMP, exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    sh('git checkout -q -- . && find . -name __pycache__ -prune -exec rm -rf {} +', d)
    if bug:
        for f, old, new in bug['edits']:
            p = os.path.join(d, f)
            s = open(p).read()
            assert s.count(old) == 1, (bug['id'], f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
    return d


def tests(d):
    files = sorted(f for f in os.listdir(os.path.join(d, 'tests')) if f.startswith('test_'))
    failed = set()
    rep = d + '-rep'
    os.makedirs(rep, exist_ok=True)

    def one(f):
        sh(f'. /opt/vp/env.sh; PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest tests/{f} --rootdir={d} -q -p no:cacheprovider --timeout=600 -o junit_family=xunit2 --junitxml={rep}/{f}.xml', d)
    with cf.ThreadPoolExecutor(3) as ex:
        list(ex.map(one, files))
    sh(f'/usr/bin/python3 /opt/vp/results.py {rep}/out.json "junit:{rep}/*.xml"', d)
    o = json.load(open(f'{rep}/out.json'))
    shutil.rmtree(rep)
    return STABLE - set(o['passed'])


def verify(bug):
    d = copy(bug, bug['id'])
    try:
        out = os.path.join(HERE, 'seeded', bug['id'])
        tmpd = os.path.join(TMP, bug['id'] + '-demo')
        shutil.rmtree(tmpd, ignore_errors=True)
        os.makedirs(tmpd)
        open(os.path.join(tmpd, 'demo.sh'), 'w').write(DEMO_SH)
        os.chmod(os.path.join(tmpd, 'demo.sh'), 0o755)
        open(os.path.join(tmpd, 'demo.py'), 'w').write(HEAD + bug['demo'].strip() + '\n')
        clean = copy(None, bug['id'] + '-clean')
        a = sh(f'bash {tmpd}/demo.sh', clean)
        b = sh(f'bash {tmpd}/demo.sh', d)
        shutil.rmtree(clean)
        if a.returncode != 0:
            return bug['id'], 'DEMO FAILS CLEAN ' + (a.stdout + a.stderr)[-600:]
        if b.returncode == 0:
            return bug['id'], 'DEMO PASSES WITH BUG ' + b.stdout[-300:]
        bad = tests(d)
        if bad:
            return bug['id'], f'TESTS CATCH {sorted(bad)[:3]}'
        diff = sh('git diff', d).stdout
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(tmpd, out)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        json.dump({'property': bug['prop'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        return bug['id'], 'ok   demo: ' + (b.stderr.strip().splitlines() or [''])[-1][:120]
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(os.path.join(TMP, bug['id'] + '-demo'), ignore_errors=True)


def catch(bug, tier, seed='1'):
    d = copy(bug, bug['id'] + '-c')
    try:
        p = sh(f"./check {bug['prop']} {tier}", HERE, dict(RV_REPO=d, VERIF_SEED=seed), 3000)
        v = [x.strip() for x in p.stdout.splitlines() if 'violated' in x]
        r = {0: 'MISSED', 1: 'caught', 3: 'INCONCLUSIVE'}.get(p.returncode, f'rc {p.returncode}')
        return bug['id'], f"{bug['prop']} {r} {(v or [p.stdout[-300:]])[0][:160]}"
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    from bugs import BUGS
    assert len({b['id'] for b in BUGS}) == len(BUGS)
    a = sys.argv[2:]
    tier = 'quick'
    if a[:1] == ['-t']:
        tier, a = a[1], a[2:]
    sel = [b for b in BUGS if not a or any(b['id'].startswith(x) for x in a)]
    if sys.argv[1] == 'verify':
        with cf.ThreadPoolExecutor(3) as ex:
            for i, r in ex.map(verify, sel):
                print(i, r, flush=True)
    else:
        for b in sel:
            print(*catch(b, tier), flush=True)
