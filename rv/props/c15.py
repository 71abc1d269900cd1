"""C15: the Kalman filter is exact Gaussian conditioning."""
import numpy as np

from rv import lg

RULE = ('Random linear-Gaussian models, dx = 1..5, dy = 1..5 (also dy > dx), correlated noises, singular or zero process noise, '
        'singular initial covariance, measurement units spread over four decades, non-normal dynamics, T = 1..9 and 110..150.  Oracle: '
        'conditioning of the joint Gaussian of the whole path, without recursion.  Non-trivial: T >= 2.')
ASSUMPTIONS = ['float64', 'the innovation covariance is positive definite']
MUST_RUN = ['mean', 'covariance', 'nell', 'symmetric', 'psd', 'measurement-units', 'state-units', 'shape']


def tasks(tier):
    return [(f'dx{dx}-dy{dy}', run, dict(dx=dx, dy=dy)) for dx in (1, 2, 3, 5) for dy in (1, 2, 3, 5)]


def run(mon, rng, tier, dx, dy):
    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers.gfs import kf
    f = jax.jit(kf)
    for rep in range(12 if tier == 'quick' else 120):
        long = rep % 12 == 11
        T = int(rng.integers(110, 150)) if long else (1, 2, 5, 9)[rep % 4]
        hard = 0 if long else rep % 6
        p, ys = lg.draw(rng, dx, dy, T, hard, .8 if long else None)
        mon.case(dx=dx, dy=dy, T=T, hard=hard, rep=rep, y0=ys[0], nontrivial=T > 1)
        a = {k: jnp.asarray(v) for k, v in p.items()}
        fn = kf if rep == 0 else f
        ms, vs, nell = map(np.asarray, mon.api(fn, a['F'], a['Sigma'], a['H'], a['Xi'], a['m0'], a['v0'], jnp.asarray(ys)))
        mon.true('shape', ms.shape == (T, dx) and vs.shape == (T, dx, dx) and nell.shape == (T,), f'shapes {ms.shape}, {vs.shape}, {nell.shape}')
        for k in (range(1, T + 1) if not long else (1, 63, 65, 101, T)):
            wm, wc, wn = lg.posterior(p, ys[:k], k)
            sl = slice((k - 1) * dx, k * dx)
            sc = 1 + np.sqrt(np.abs(np.diag(lg.joint(p, k)[1])[-dx:])).max()
            mon.close('mean', ms[k - 1], wm[sl], rtol=0, atol=1e-10 * sc, msg=f'time {k}')
            mon.close('covariance', vs[k - 1], wc[sl, sl], rtol=0, atol=1e-10 * sc ** 2, msg=f'time {k}')
            mon.close('nell', nell[k - 1], wn, rtol=1e-10, atol=1e-10, msg=f'time {k}')
        mon.close('symmetric', vs, np.swapaxes(vs, 1, 2), rtol=1e-12, atol=1e-12)
        ev = np.linalg.eigvalsh((vs + np.swapaxes(vs, 1, 2)) / 2)
        mon.true('psd', np.all(ev >= -1e-9 * (1 + np.abs(ev).max())), f'negative variance {ev.min():.3g}')
        if rep % 2 == 0:
            # an invertible change of measurement units leaves the posterior, and shifts the evidence by log|det|
            U = (rng.normal(size=(dy, dy)) + 2 * np.eye(dy)) * 10. ** (rng.uniform(-6, 6) if rep else 0.)
            m2, v2, n2 = map(np.asarray, f(a['F'], a['Sigma'], jnp.asarray(U @ p['H']), jnp.asarray(U @ p['Xi'] @ U.T), a['m0'], a['v0'], jnp.asarray(ys @ U.T)))
            ld = np.linalg.slogdet(U)[1]
            cU = np.linalg.cond(U) ** 2
            if cU < 1e5:
                mon.close('measurement-units', m2, ms, rtol=1e-9 * cU, atol=1e-9 * cU)
                mon.close('measurement-units', v2, vs, rtol=1e-9 * cU, atol=1e-9 * cU)
                mon.close('measurement-units', n2, nell + ld * np.arange(1, T + 1), rtol=1e-9 * cU, atol=1e-9 * cU)
            V = (rng.normal(size=(dx, dx)) + 2 * np.eye(dx)) * 10. ** (rng.uniform(-6, 6) if rep else 0.)
            Vi = np.linalg.inv(V)
            cV = np.linalg.cond(V) ** 2
            if cV < 1e5:
                m3, v3, n3 = map(np.asarray, f(jnp.asarray(V @ p['F'] @ Vi), jnp.asarray(V @ p['Sigma'] @ V.T), jnp.asarray(p['H'] @ Vi), a['Xi'],
                                               jnp.asarray(V @ p['m0']), jnp.asarray(V @ p['v0'] @ V.T), jnp.asarray(ys)))
                mon.close('state-units', m3 @ Vi.T, ms, rtol=1e-8 * cV, atol=1e-8 * cV)
                mon.close('state-units', Vi @ v3 @ Vi.T, vs, rtol=1e-8 * cV, atol=1e-8 * cV)
                mon.close('state-units', n3, nell, rtol=1e-8 * cV, atol=1e-8 * cV)
