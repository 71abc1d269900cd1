"""C17: the extended and sigma-point filters and smoothers follow their defining Gaussian recursions."""
import numpy as np

from rv import gauss_ref as gr
from rv import lg, ref

RULE = ('Random nonlinear models with state-dependent, correlated noises (dx = 1..3, dy = 1..3) and random affine models; ekf/eks, '
        'sigma-point filter/smoother with cubature and Gauss--Hermite rules; constant-covariance and forward-Jacobian options; T up '
        'to 6, and 70..110; origins of state and measurement moved by up to 1e6.  Oracle: textbook recursion with hand-written Jacobians and product rules; on affine models joint conditioning.  '
        'Non-trivial: T >= 2.')
ASSUMPTIONS = ['float64', 'runs whose covariance loses positive definiteness in the reference are out of numerical reach']
MUST_RUN = ['filter-mean', 'filter-cov', 'nell', 'smoother-mean', 'smoother-cov', 'option', 'affine-mean', 'affine-cov', 'affine-nell', 'shape', 'moved-origin']


def tasks(tier):
    out = []
    for dx in (1, 2, 3):
        for dy in (1, 2, 3):
            for w in ('ekf', 'cubature', 'gh2', 'gh4'):
                out.append((f'dx{dx}-dy{dy}-{w}', run, dict(dx=dx, dy=dy, which=w)))
    return out


def run(mon, rng, tier, dx, dy, which):
    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers import gfs
    from mfs.classical_filters_smoothers.quadratures import SigmaPoints
    if which == 'ekf':
        sg, rl = None, None
    elif which == 'cubature':
        sg, rl = SigmaPoints.cubature(dx), gr.rule('cubature', dx)
    else:
        o = int(which[2:])
        sg, rl = SigmaPoints.gauss_hermite(dx, o), gr.rule('gh', dx, o)
    _, _, to_jax = gr.draw_model(rng, dx, dy)

    def pipeline(P, m0, v0, dt, ys, option=False, o=0., u=0.):  # o, u: the origins of the state and of the measurement
        tr, me = to_jax(P)

        def trans(x, h):
            m, v = tr(x - o, h)
            return m + o, v

        def meas(x):
            m, v = me(x - o)
            return m + u, v

        if sg is None:
            mf, vf, n = gfs.ekf(trans, meas, m0, v0, dt, ys, option)
            ms, vs = gfs.eks(trans, mf, vf, dt)
        else:
            mf, vf, n = gfs.sgp_filter(trans, meas, sg, m0, v0, dt, ys, option)
            ms, vs = gfs.sgp_smoother(trans, sg, mf, vf, dt)
        return mf, vf, n, ms, vs

    jp = jax.jit(pipeline, static_argnums=5)
    jp.__name__ = f'{which}-filter-smoother'
    for rep in range(6 if tier == 'quick' else 60):
        T = int(rng.integers(70, 110)) if rep % 6 == 4 else (3, 6, 1)[rep % 3]
        const = rep % 2 == 0
        mod, P, _ = gr.draw_model(rng, dx, dy, const_R=const)
        m0, v0 = rng.normal(size=dx), ref.spd(rng, dx, .1, .6)
        dt = float(rng.uniform(.05, .5))
        ys = rng.normal(size=(T, dy)) * 1.5
        try:
            wm, wv, wn = gr.filt(mod, m0, v0, ys, dt, rl)
            sm, sv = gr.smooth(mod, wm, wv, dt, rl)
            # response of the recursion to perturbations at rounding level (a linearised filter may be chaotic)
            z = 1e-13 * rng.normal(size=ys.shape)
            pm, pv, pn = gr.filt(mod, m0 + 1e-13, v0 * (1 + 1e-13), ys + z, dt, rl)
            qm, qv = gr.smooth(mod, pm, pv, dt, rl)
            resp = max(np.abs(a - b).max() for a, b in zip((wm, wv, wn, sm, sv), (pm, pv, pn, qm, qv)))
        except np.linalg.LinAlgError:
            mon.skip('not-positive-definite')
            continue
        if not (np.all(np.isfinite(wv)) and np.all(np.isfinite(sv))):
            mon.skip('not-positive-definite')
            continue
        kap = 1 / np.min([np.linalg.eigvalsh(v).min() for v in wv])
        if not (0 < kap < 1e4 and np.all(np.isfinite(sm))):
            mon.skip('not-positive-definite')
            continue
        if not resp < 1e-8:
            mon.skip('chaotic')
            continue
        mon.case(dx=dx, dy=dy, which=which, T=T, m0=m0, dt=dt, ys=ys, rep=rep, nontrivial=T > 1)
        args = (P, jnp.asarray(m0), jnp.asarray(v0), dt, jnp.asarray(ys))
        zero = np.zeros(dx), np.zeros(dy)
        mf, vf, n, ms, vs = map(np.asarray, mon.api(pipeline, *args) if rep == 0 else mon.api(jp, *args, False, *zero))
        mon.true('shape', mf.shape == (T, dx) and vf.shape == (T, dx, dx) and n.shape == (T,))
        sc = 1 + np.abs(wm).max() + np.abs(wv).max() + np.abs(sm).max()
        t = 1e-11 * kap * sc + 100 * resp
        mon.close('filter-mean', mf, wm, rtol=0, atol=t)
        mon.close('filter-cov', vf, wv, rtol=0, atol=t)
        mon.close('nell', n, wn, rtol=1e-10, atol=t)
        mon.close('smoother-mean', ms, sm, rtol=0, atol=10 * t)
        mon.close('smoother-cov', vs, sv, rtol=0, atol=10 * t)
        if sg is None or const:
            o = jp(*args, True, *zero)
            for got, want in zip(o, (wm, wv, wn, sm, sv)):
                mon.close('option', got, want, rtol=1e-10, atol=10 * t)
        if rep in (1, 3, 4) and kap < 300:
            H = float(10. ** rng.uniform(3, 6))
            o, u = H * rng.choice([-1., 1.], dx), H * rng.choice([-1., 1.], dy)
            t = t + 1e-14 * H * kap * sc ** 2 + .1 * resp * H
            if t < 1e-5:
                got = mon.api(jp, P, jnp.asarray(m0 + o), args[2], dt, jnp.asarray(ys + u), False, o, u)
                for g, want in zip((got[0] - o, got[1], got[2], got[3] - o, got[4]), (wm, wv, wn, sm, sv)):
                    mon.close('moved-origin', g, want, rtol=0, atol=10 * t, msg=f'origin moved by {H:.3g} ')
    # affine models: exact
    def affine(a, b, c, dt, ys):
        trans, meas = (lambda x, h: (a['F'] @ x + h * b, a['Sigma'] * h)), (lambda x: (a['H'] @ x + c, a['Xi']))
        return gfs.ekf(trans, meas, a['m0'], a['v0'], dt, ys) if sg is None else gfs.sgp_filter(trans, meas, sg, a['m0'], a['v0'], dt, ys)

    ja = jax.jit(affine)
    ja.__name__ = f'{which}-filter'
    for rep in range(4 if tier == 'quick' else 40):
        T = (5, 2, 1)[rep % 3]
        p, ys = lg.draw(rng, dx, dy, T, (0, 1, 5)[rep % 3])
        b, c, dt = rng.normal(size=dx), rng.normal(size=dy), float(rng.uniform(.3, 2.))
        q = dict(p, Sigma=p['Sigma'] * dt)
        mon.case(affine=True, dx=dx, dy=dy, which=which, T=T, y0=ys[0], rep=rep, nontrivial=T > 1)
        mf, vf, n = map(np.asarray, mon.api(ja, {k: jnp.asarray(v) for k, v in p.items()}, jnp.asarray(b), jnp.asarray(c), dt, jnp.asarray(ys)))
        for k in range(1, T + 1):
            wm, wc, wn = lg.posterior(q, ys, k, b * dt, c)
            sl = slice((k - 1) * dx, k * dx)
            sc = 1 + np.sqrt(np.abs(np.diag(lg.joint(q, k)[1])[-dx:])).max() + np.abs(wm).max()
            mon.close('affine-mean', mf[k - 1], wm[sl], rtol=0, atol=1e-9 * sc)
            mon.close('affine-cov', vf[k - 1], wc[sl, sl], rtol=0, atol=1e-9 * sc ** 2)
            mon.close('affine-nell', n[k - 1], wn, rtol=1e-9, atol=1e-9)
