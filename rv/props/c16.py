"""C16: the discrete-time smoothers return the marginals of the path given the whole record."""
import numpy as np

from rv import lg

RULE = ('Random affine-Gaussian models, dx = 1..4, dy = 1..3, singular or non-normal dynamics, T = 1..10 and 70..110; rts, eks, sigma-point '
        'smoothers (cubature and Gauss--Hermite) run on the output of kf, ekf, sigma-point filters.  Oracle: the joint Gaussian of '
        'the whole path conditioned on the whole record.  Non-trivial: T >= 2.')
ASSUMPTIONS = ['float64', 'predictive covariances positive definite']
MUST_RUN = ['mean', 'covariance', 'last', 'shrinks', 'shape', 'cross-smoother']


def tasks(tier):
    return [(f'dx{dx}-dy{dy}-{s}', run, dict(dx=dx, dy=dy, which=s)) for dx in (1, 2, 3, 4) for dy in (1, 2, 3)
            for s in ('rts', 'eks', 'sgp-cubature', 'sgp-gh')]


def run(mon, rng, tier, dx, dy, which):
    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers import gfs
    from mfs.classical_filters_smoothers.quadratures import SigmaPoints
    sg = SigmaPoints.cubature(dx) if which == 'sgp-cubature' else SigmaPoints.gauss_hermite(dx, 3) if which == 'sgp-gh' else None

    def pipeline(a, b, c, dt, ys):
        # affine model; the time step enters so that it has to be passed through
        def trans(x, h):
            return a['F'] @ x + b * h, a['Sigma'] * h

        def meas(x):
            return a['H'] @ x + c, a['Xi']

        if which == 'rts':
            mf, vf, n = gfs.kf(a['F'], a['Sigma'] * dt, a['H'], a['Xi'], a['m0'], a['v0'], ys)
            ms, vs = gfs.rts(a['F'], a['Sigma'] * dt, mf, vf)
        elif which == 'eks':
            mf, vf, n = gfs.ekf(trans, meas, a['m0'], a['v0'], dt, ys)
            ms, vs = gfs.eks(trans, mf, vf, dt)
        else:
            mf, vf, n = gfs.sgp_filter(trans, meas, sg, a['m0'], a['v0'], dt, ys)
            ms, vs = gfs.sgp_smoother(trans, sg, mf, vf, dt)
        return mf, vf, ms, vs

    jp = jax.jit(pipeline)
    jp.__name__ = f'{which}-smoother'
    hards = (0, 1, 5, 3) if which == 'rts' else (0, 1, 5)
    for rep in range(7 if tier == 'quick' else 60):
        long = rep % 7 == 6 and (dx < 4 or tier != 'quick')
        T = int(rng.integers(70, 110)) if long else (4, 1, 10, 2)[rep % 4]
        p, ys = lg.draw(rng, dx, dy, T, 0 if long else hards[rep % len(hards)], .8 if long else None)
        dt = float(rng.uniform(.3, 2.))
        b, c = (np.zeros(dx), np.zeros(dy)) if which == 'rts' else (rng.normal(size=dx), rng.normal(size=dy))
        if rep % 3 == 2 and dx > 1:  # singular dynamics
            p['F'] = p['F'] - np.outer(p['F'][:, 0], np.eye(dx)[0])
            p['Sigma'] = p['Sigma'] + .2 * np.eye(dx)
        mon.case(dx=dx, dy=dy, T=T, which=which, rep=rep, y0=ys[0], nontrivial=T > 1)
        a = {k: jnp.asarray(v) for k, v in p.items()}
        fn = pipeline if rep == 0 else jp
        mf, vf, ms, vs = map(np.asarray, mon.api(fn, a, jnp.asarray(b), jnp.asarray(c), dt, jnp.asarray(ys)))
        mon.true('shape', ms.shape == (T, dx) and vs.shape == (T, dx, dx), f'{ms.shape} {vs.shape}')
        q = dict(p, Sigma=p['Sigma'] * dt)
        # conditioning of the backward pass
        vp = np.einsum('ij,kjl,ml->kim', p['F'], vf, p['F']) + q['Sigma']
        kap = np.max(np.linalg.cond(vp))
        if kap > 1e6:
            mon.skip('ill-conditioned')
            continue
        wm, wc, _ = lg.posterior(q, ys, T, b * dt, c)
        sc = 1 + np.sqrt(np.abs(np.diag(lg.joint(q, T)[1]))).max() + np.abs(wm).max()
        for k in range(T):
            sl = slice(k * dx, (k + 1) * dx)
            mon.close('mean', ms[k], wm[sl], rtol=0, atol=1e-10 * kap * sc, msg=f'time {k + 1} of {T}')
            mon.close('covariance', vs[k], wc[sl, sl], rtol=0, atol=1e-10 * kap * sc ** 2, msg=f'time {k + 1} of {T}')
        mon.true('last', np.allclose(ms[-1], mf[-1], rtol=1e-12, atol=1e-13) and np.allclose(vs[-1], vf[-1], rtol=1e-12, atol=1e-13), 'the last smoothing marginal is the filtering one')
        ev = np.linalg.eigvalsh((vf - vs + np.swapaxes(vf - vs, 1, 2)) / 2)
        mon.true('shrinks', np.all(ev >= -1e-9 * kap * sc ** 2), f'smoothing inflated a variance by {-ev.min():.3g}')
        if which != 'rts' and T > 1:
            # on the same filtering output every smoother agrees with the others (affine model)
            def trans(x, h):
                return a['F'] @ x + b * h, a['Sigma'] * h

            o = gfs.eks(trans, jnp.asarray(mf), jnp.asarray(vf), dt) if which.startswith('sgp') else \
                gfs.sgp_smoother(trans, SigmaPoints.cubature(dx), jnp.asarray(mf), jnp.asarray(vf), dt)
            mon.close('cross-smoother', o[0], ms, rtol=0, atol=1e-9 * kap * sc)
            mon.close('cross-smoother', o[1], vs, rtol=0, atol=1e-9 * kap * sc ** 2)
