"""Copies /repo to DIR with the reductions and factorisations of `jax.numpy` perturbed by a few units in the last place, as
another order of summation or another library version would: every check has to stay quiet.

usage: noise.py DIR [seed]     (then: RV_REPO=DIR ./check Cxx quick)
"""
import os
import subprocess
import sys

SHIM = '''"""jax.numpy with perturbed rounding."""
import types
import numpy as _np
import jax
import jax.numpy as _jnp

SEED, ULPS = %d, 3.


def _shake(v, name):
    if not hasattr(v, 'dtype') or v.dtype not in (_jnp.float64, _jnp.float32):
        return v
    rng = _np.random.default_rng([SEED, len(name)] + [int(k) for k in v.shape])
    eps = ULPS * (2.2e-16 if v.dtype == _jnp.float64 else 1.2e-7)
    return v * (1 + eps * rng.uniform(-1, 1, v.shape)).astype(v.dtype)


def _wrap(f, name):
    def g(*a, **k):
        out = f(*a, **k)
        if isinstance(out, (_np.ndarray,)):
            return out
        return _shake(out, name) if hasattr(out, 'dtype') else out
    return g


jnp = types.SimpleNamespace(**{k: getattr(_jnp, k) for k in dir(_jnp) if not k.startswith('__')})
jnp.trapz = _wrap(_jnp.trapz, 'trapz')
for _n in ('sum', 'dot', 'einsum', 'prod', 'mean', 'matmul', 'vdot', 'outer', 'tensordot'):
    setattr(jnp, _n, _wrap(getattr(_jnp, _n), _n))
_la = _jnp.linalg
jnp.linalg = types.SimpleNamespace(**{k: getattr(_la, k) for k in dir(_la) if not k.startswith('__')})
for _n in ('cholesky', 'solve', 'norm'):
    setattr(jnp.linalg, _n, _wrap(getattr(_la, _n), _n))
'''


def main(d, seed):
    subprocess.run(['rm', '-rf', os.path.abspath(d)], check=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    open(os.path.join(d, 'mfs', 'shaken.py'), 'w').write(SHIM % seed)
    n = 0
    for base, _, files in os.walk(os.path.join(d, 'mfs')):
        for f in files:
            p = os.path.join(base, f)
            if f.endswith('.py') and f != 'shaken.py':
                s = open(p).read()
                t = s.replace('import jax.numpy as jnp', 'from mfs.shaken import jnp')
                n += s != t
                open(p, 'w').write(t)
    print('rewrote', n, 'files')


if __name__ == '__main__':
    main(sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 1)
