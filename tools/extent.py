"""Copies /repo to DIR with every public function of mfs logging the extremes of its arguments (integers, axis lengths, magnitudes),
to see how far the workloads of each check reach.

usage: extent.py DIR; RV_REPO=DIR RV_EXTENT=LOGDIR ./check Cxx quick; extent.py report LOGDIR
"""
import ast
import glob
import json
import os
import subprocess
import sys

SHIM = '''import atexit, functools, inspect, json, os, math
import numpy as _np
SEEN = {}


def _put(k, v):
    lo, hi = SEEN.get(k, (math.inf, -math.inf))
    if v < lo or v > hi:
        SEEN[k] = (min(lo, v), max(hi, v))
        d = os.environ.get('RV_EXTENT')
        if d:
            with open(os.path.join(d, str(os.getpid())), 'a') as f:
                f.write(json.dumps([k, float(v)]) + chr(10))


def _note(fn, name, v):
    k = fn + '.' + name
    if isinstance(v, bool) or isinstance(v, _np.bool_):
        _put(k + ':' + str(v), 1)
    elif isinstance(v, (int, float)):
        _put(k, v)
    elif isinstance(v, str):
        _put(k + ':' + v, 1)
    elif hasattr(v, 'shape') and hasattr(v, 'dtype'):
        _put(k + '.ndim', len(v.shape))
        for i, s in enumerate(v.shape):
            _put(k + '.shape[%d/%d]' % (i, len(v.shape)), s)
        _put(k + ':' + str(v.dtype), 1)
        try:
            a = _np.abs(_np.asarray(v)).astype(float)
            if a.size:
                _put(k + '.log10max', float(_np.log10(max(a.max(), 1e-300))))
                if a[a > 0].size:
                    _put(k + '.log10min', float(_np.log10(a[a > 0].min())))
        except Exception:
            pass


def watch(f):
    try:
        sig = inspect.signature(f)
    except Exception:
        return f

    @functools.wraps(f)
    def g(*a, **k):
        try:
            for n, v in sig.bind(*a, **k).arguments.items():
                _note(f.__module__ + '.' + f.__qualname__, n, v)
        except TypeError:
            pass
        return f(*a, **k)
    return g
'''


def main(d):
    subprocess.run(['rm', '-rf', os.path.abspath(d)], check=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    open(os.path.join(d, 'mfs', 'watched.py'), 'w').write(SHIM)
    for base, _, files in os.walk(os.path.join(d, 'mfs')):
        for f in files:
            p = os.path.join(base, f)
            if not f.endswith('.py') or f == 'watched.py':
                continue
            s = open(p).read()
            lines = s.split('\n')
            t = ast.parse(s)
            ins = sorted({(n.decorator_list[0].lineno if n.decorator_list else n.lineno) for n in t.body
                          if isinstance(n, ast.FunctionDef) and not n.name.startswith('_')
                          and 'custom' not in ''.join(map(ast.dump, n.decorator_list))}, reverse=True)
            for ln in ins:
                lines.insert(ln - 1, '@__watch')
            if ins:
                first = min(n.lineno for n in t.body if isinstance(n, (ast.Import, ast.ImportFrom)))
                lines.insert(first - 1, 'from mfs.watched import watch as __watch')
            open(p, 'w').write('\n'.join(lines))


def report(d):
    ext = {}
    for f in glob.glob(os.path.join(d, '*')):
        for l in open(f):
            k, v = json.loads(l)
            lo, hi = ext.get(k, (v, v))
            ext[k] = (min(lo, v), max(hi, v))
    for k in sorted(ext):
        print(k if ':' in k else f'{k}: {ext[k][0]:.6g} .. {ext[k][1]:.6g}')


if __name__ == '__main__':
    report(sys.argv[2]) if sys.argv[1] == 'report' else main(sys.argv[1])
