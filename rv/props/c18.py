"""C18: continuous-discrete filters and smoothers integrate the Gaussian moment ODEs between measurements."""
import numpy as np

from rv import gauss_ref as gr
from rv import lg, ref

RULE = ('Random nonlinear SDEs (dx = 1..3, noises dw = 1..3, state-dependent dispersion for the linearised variants) and linear '
        'SDEs; cd_ekf/cd_eks and sigma-point variants (cubature, Gauss--Hermite), T up to 6, and 70..110; origins of state and measurement moved by up to 1e6.  Oracles: an independent '
        'fourth-order Runge--Kutta integration of the moment ODEs with hand-written Jacobians; a high-accuracy ODE solver (error '
        'must vanish as dt^5 per step); joint Gaussian conditioning on linear SDEs as dt -> 0.  Non-trivial: T >= 2.')
ASSUMPTIONS = ['float64', 'runs where the reference covariance leaves the positive definite cone are out of numerical reach']
MUST_RUN = ['filter-mean', 'filter-cov', 'nell', 'smoother-mean', 'smoother-cov', 'ode-rate', 'linear-filter', 'linear-smoother', 'option', 'last', 'moved-origin']


def tasks(tier):
    out = [(f'dx{dx}-dw{dw}-{w}', run, dict(dx=dx, dw=dw, which=w)) for dx, dw in ((1, 1), (2, 1), (2, 2), (2, 3), (3, 3)) for w in ('ekf', 'cubature', 'gh3')]
    out += [(f'ode-{w}', ode_rate, dict(which=w)) for w in ('ekf', 'cubature', 'gh3')]
    out += [(f'linear-{w}', linear, dict(which=w)) for w in ('ekf', 'cubature', 'gh3')]
    return out


def draw_sde(rng, dx, dw, state):
    import jax.numpy as jnp
    A, B, b = rng.normal(size=(dx, dx)) * .6 - .5 * np.eye(dx), rng.normal(size=(dx, dx)) * .5, rng.normal(size=dx) * .3
    L0, L1, l = rng.normal(size=(dx, dw)) * .5, rng.normal(size=(dx, dw)) * (.3 if state else 0.), rng.normal(size=dx) * .5
    p = dict(A=A, B=B, b=b, L0=L0, L1=L1, l=l)

    def fns(P, xp):
        return (lambda x: P['A'] @ x + xp.sin(P['B'] @ x) + P['b']), (lambda x: P['L0'] + P['L1'] * xp.tanh(P['l'] @ x))

    a, L = fns(p, np)
    J = lambda x: A + np.cos(B @ x)[:, None] * B
    return p, a, J, L, (lambda P: fns(P, jnp)), {k: jnp.asarray(v) for k, v in p.items()}


def ode(a, J, L, rl):
    """Right-hand sides of the predictive and smoothing moment equations."""

    def moments(m, V):
        if rl is None:
            Jm = J(m)
            return a(m), Jm @ V
        X, w = rl
        xs = m + X @ np.linalg.cholesky(V).T
        ax = np.array([a(x) for x in xs])
        return w @ ax, sum(wi * np.outer(av, x - m) for wi, av, x in zip(w, ax, xs))

    def fwd(m, V):
        dm, JV = moments(m, V)
        g = L(m) @ L(m).T
        return dm, JV + JV.T + g

    def bwd(m, V, mf, Vf):
        dm, JV = moments(m, V)
        g = L(m) @ L(m).T
        gv = np.linalg.solve(Vf, g).T
        return dm + gv @ (m - mf), JV + JV.T + gv @ V + V @ gv.T - g

    return fwd, bwd


def rk4(f, m, V, h):
    k1 = f(m, V)
    k2 = f(m + h / 2 * k1[0], V + h / 2 * k1[1])
    k3 = f(m + h / 2 * k2[0], V + h / 2 * k2[1])
    k4 = f(m + h * k3[0], V + h * k3[1])
    return tuple(z + h / 6 * (p + 2 * q + 2 * r + s) for z, p, q, r, s in zip((m, V), k1, k2, k3, k4))


def sig(which, dx):
    from mfs.classical_filters_smoothers.quadratures import SigmaPoints
    if which == 'ekf':
        return None, None
    if which == 'cubature':
        return SigmaPoints.cubature(dx), gr.rule('cubature', dx)
    return SigmaPoints.gauss_hermite(dx, 3), gr.rule('gh', dx, 3)


def run(mon, rng, tier, dx, dw, which):
    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers import gfs
    sg, rl = sig(which, dx)
    state = sg is None
    to_jax = draw_sde(rng, dx, dw, state)[4]
    for dy in ((1, 2) if tier == 'quick' else (1, 2, 3)):
        to_meas = gr.draw_model(rng, dx, dy)[2]

        def pipeline(P, M, m0, v0, dt, ys, option=False, o=0., u=0.):  # o, u: the origins of the state and of the measurement
            drift, disp = (lambda x, f=f: f(x - o) for f in to_jax(P))

            def meas(x):
                m, v = to_meas(M)[1](x - o)
                return m + u, v

            if sg is None:
                mf, vf, n = gfs.cd_ekf(drift, disp, meas, m0, v0, dt, ys, option)
                ms, vs = gfs.cd_eks(drift, disp, mf, vf, dt)
            else:
                mf, vf, n = gfs.cd_sgp_filter(drift, P['L0'], meas, sg, m0, v0, dt, ys, option)
                ms, vs = gfs.cd_sgp_smoother(drift, P['L0'], sg, mf, vf, dt)
            return mf, vf, n, ms, vs

        jp = jax.jit(pipeline, static_argnums=6)
        jp.__name__ = f'cd-{which}-filter-smoother'
        for rep in range(6 if tier == 'quick' else 60):
            T = int(rng.integers(70, 110)) if rep % 6 == 4 else (3, 6, 1)[rep % 3]
            const = rep % 2 == 0
            p, a, J, L, _, P = draw_sde(rng, dx, dw, state)
            mod, M, _ = gr.draw_model(rng, dx, dy, const_R=const)
            m0, v0 = rng.normal(size=dx), ref.spd(rng, dx, .3, 1.)
            dt = float(rng.uniform(.01, .15))
            ys = rng.normal(size=(T, dy)) * 1.5
            fwd, bwd = ode(a, J, L, rl)
            try:
                wm, wv, wn = gr.filt(mod, m0, v0, ys, dt, rl, pred=lambda m, V: rk4(fwd, m, V, dt))
                m, V = wm[-1], wv[-1]
                out = [(m, V)]
                for k in range(T - 2, -1, -1):
                    m, V = rk4(lambda m, V: bwd(m, V, wm[k], wv[k]), m, V, -dt)
                    out.append((m, V))
                z = 1e-13 * rng.normal(size=ys.shape)
                pm, pv, pn = gr.filt(mod, m0 + 1e-13, v0 * (1 + 1e-13), ys + z, dt, rl, pred=lambda m, V: rk4(fwd, m, V, dt))
                resp = max(np.abs(a - b).max() for a, b in zip((wm, wv, wn), (pm, pv, pn)))
                m, V = pm[-1], pv[-1]
                for k in range(T - 2, -1, -1):
                    m, V = rk4(lambda m, V: bwd(m, V, pm[k], pv[k]), m, V, -dt)
                    resp = max(resp, np.abs(m - out[T - 1 - k][0]).max(), np.abs(V - out[T - 1 - k][1]).max())
            except np.linalg.LinAlgError:
                mon.skip('not-positive-definite')
                continue
            sm, sv = np.array([o[0] for o in out[::-1]]), np.array([o[1] for o in out[::-1]])
            if not (np.all(np.isfinite(wv)) and np.all(np.isfinite(sv)) and np.all(np.isfinite(sm))):
                mon.skip('not-positive-definite')
                continue
            kap = 1 / np.min([np.linalg.eigvalsh(v).min() for v in np.r_[wv, sv]])
            if not (0 < kap < 1e4 and np.all(np.isfinite(sm))):
                mon.skip('not-positive-definite')
                continue
            if not resp < 1e-8:
                mon.skip('chaotic')
                continue
            mon.case(dx=dx, dw=dw, dy=dy, which=which, T=T, dt=dt, m0=m0, ys=ys, rep=rep, nontrivial=T > 1)
            args = (P, M, jnp.asarray(m0), jnp.asarray(v0), dt, jnp.asarray(ys))
            zero = np.zeros(dx), np.zeros(dy)
            mf, vf, n, ms, vs = map(np.asarray, mon.api(pipeline, *args) if rep == 0 and dy == 1 else mon.api(jp, *args, False, *zero))
            sc = 1 + np.abs(wm).max() + np.abs(wv).max() + np.abs(sm).max() + np.abs(sv).max()
            t = 1e-10 * kap * sc + 100 * resp
            mon.close('filter-mean', mf, wm, rtol=0, atol=t)
            mon.close('filter-cov', vf, wv, rtol=0, atol=t)
            mon.close('nell', n, wn, rtol=1e-9, atol=t)
            mon.close('smoother-mean', ms, sm, rtol=0, atol=10 * t)
            mon.close('smoother-cov', vs, sv, rtol=0, atol=10 * t)
            mon.true('last', np.allclose(ms[-1], mf[-1], rtol=1e-12, atol=1e-13) and np.allclose(vs[-1], vf[-1], rtol=1e-12, atol=1e-13))
            if sg is None or const:
                for got, want in zip(jp(*args, True, *zero), (wm, wv, wn, sm, sv)):
                    mon.close('option', got, want, rtol=1e-9, atol=10 * t)
            if rep in (1, 3, 4) and kap < 300:
                H = float(10. ** rng.uniform(3, 6))
                o, u = H * rng.choice([-1., 1.], dx), H * rng.choice([-1., 1.], dy)
                t = t + 1e-14 * H * kap * sc ** 2 + .1 * resp * H
                if t < 1e-5:
                    got = mon.api(jp, P, M, jnp.asarray(m0 + o), args[3], dt, jnp.asarray(ys + u), False, o, u)
                    for g, want in zip((got[0] - o, got[1], got[2], got[3] - o, got[4]), (wm, wv, wn, sm, sv)):
                        mon.close('moved-origin', g, want, rtol=0, atol=10 * t, msg=f'origin moved by {H:.3g} ')


def ode_rate(mon, rng, tier, which):
    """One prediction step against a high-accuracy solver: the error is O(dt^5), so it falls by about 32 when dt halves."""
    import jax
    import jax.numpy as jnp
    from scipy.integrate import solve_ivp
    from mfs.classical_filters_smoothers import gfs
    dx = 2
    sg, rl = sig(which, dx)
    to_jax = draw_sde(rng, dx, 2, sg is None)[4]

    def one(P, m0, v0, dt, ys):
        drift, disp = to_jax(P)
        meas = lambda x: (x[:1], jnp.eye(1) * 1e14)  # an uninformative measurement exposes the prediction
        return gfs.cd_ekf(drift, disp, meas, m0, v0, dt, ys) if sg is None else gfs.cd_sgp_filter(drift, P['L0'], meas, sg, m0, v0, dt, ys)

    jo = jax.jit(one)
    jo.__name__ = f'cd-{which}-predict'
    for rep in range(6 if tier == 'quick' else 40):
        p, a, J, L, _, P = draw_sde(rng, dx, 2, sg is None)
        m0, v0 = rng.normal(size=dx), ref.spd(rng, dx, .3, 1.)
        fwd, _ = ode(a, J, L, rl)

        def rhs(_, z):
            dm, dV = fwd(z[:dx], z[dx:].reshape(dx, dx))
            return np.r_[dm, dV.ravel()]

        errs = []
        hs = (.2, .1, .05)
        for h in hs:
            z = solve_ivp(rhs, (0, h), np.r_[m0, v0.ravel()], rtol=1e-12, atol=1e-13, method='DOP853').y[:, -1]
            m, v, _ = mon.api(jo, P, jnp.asarray(m0), jnp.asarray(v0), h, jnp.zeros((1, 1)))
            errs.append(max(np.abs(np.asarray(m)[0] - z[:dx]).max(), np.abs(np.asarray(v)[0].ravel() - z[dx:]).max()))
        mon.case(which=which, m0=m0, errs=errs)
        mon.true('ode-rate', errs[0] < .05 and errs[2] < max(errs[0] / 150, 1e-10), f'one-step errors {errs} for dt {hs}')


def linear(mon, rng, tier, which):
    """Linear SDE: as dt -> 0 filter and smoother converge to the exact Gaussian posterior."""
    import jax
    import jax.numpy as jnp
    from scipy.linalg import expm
    from mfs.classical_filters_smoothers import gfs
    dx, dy = 2, 1
    sg, rl = sig(which, dx)

    def pipe(A, B, H, Xi, m0, v0, dt, ys):
        drift, meas = (lambda x: A @ x), (lambda x: (H @ x, Xi))
        if sg is None:
            r = gfs.cd_ekf(drift, lambda x: B, meas, m0, v0, dt, ys)
            return r + tuple(gfs.cd_eks(drift, lambda x: B, r[0], r[1], dt))
        r = gfs.cd_sgp_filter(drift, B, meas, sg, m0, v0, dt, ys)
        return r + tuple(gfs.cd_sgp_smoother(drift, B, sg, r[0], r[1], dt))

    jp = jax.jit(pipe)
    jp.__name__ = f'cd-{which}'
    for rep in range(3 if tier == 'quick' else 20):
        A = rng.normal(size=(dx, dx)) * .5 - .5 * np.eye(dx)
        B = np.linalg.cholesky(ref.spd(rng, dx, .2, .6))
        H, Xi0 = rng.normal(size=(dy, dx)), np.eye(dy) * .3
        m0, v0 = rng.normal(size=dx), ref.spd(rng, dx, .5, 1.)
        fe, se = [], []
        w = rng.normal(size=(1024, dy))
        for T in (16, 64):
            dt = 1. / T
            ys = w.reshape(T, -1, dy).mean(axis=1) * np.sqrt(1024 / T) * .5 + 1.
            F = expm(A * dt)
            Z = expm(np.block([[A, B @ B.T], [np.zeros((dx, dx)), -A.T]]) * dt)
            Q = Z[:dx, dx:] @ F.T
            p = dict(F=F, Sigma=(Q + Q.T) / 2, H=H, Xi=Xi0 / dt, m0=m0, v0=v0)
            got = mon.api(jp, *map(jnp.asarray, (A, B, H, Xi0 / dt, m0, v0)), dt, jnp.asarray(ys))
            mf, vf, n, ms, vs = map(np.asarray, got)
            km = np.array([lg.posterior(p, ys, k)[0][(k - 1) * dx:k * dx] for k in (1, T // 2, T)])
            wm, wc, wn = lg.posterior(p, ys, T)
            fe.append(max(np.abs(mf[[0, T // 2 - 1, T - 1]] - km).max(), abs(n[-1] - wn)))
            se.append(max(np.abs(ms - wm.reshape(T, dx)).max(), max(np.abs(vs[k] - wc[k * dx:(k + 1) * dx, k * dx:(k + 1) * dx]).max() for k in range(T))))
        mon.case(which=which, A=A, B=B, H=H, fe=fe, se=se)
        mon.true('linear-filter', fe[0] < 1e-3 and fe[1] < max(fe[0] / 30, 1e-9), f'filter errors {fe}')
        mon.true('linear-smoother', se[1] < .3 and se[1] < max(se[0] / 1.8, 2e-3), f'smoother errors {se} at T = 16, 64')
