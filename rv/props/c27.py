"""C27: the posterior Cramer--Rao recursion is the Bayesian information recursion."""
import numpy as np
import sympy as sp

from rv import ref

RULE = ('Linear-Gaussian models, dx = 1..4, dy = 1..3, non-symmetric dynamics, any trajectories: the bound equals the inverse Kalman covariance; '
        'nonlinear models with state-dependent noise (dx = 1, 2; Gaussian, Bernoulli and Poisson measurements) against symbolic Hessians averaged in NumPy; '
        'T = 1..8 and 70..130, 1..400 Monte Carlo paths.  Non-trivial: T >= 2.')
ASSUMPTIONS = ['float64', 'the information matrices are well conditioned (condition number below 1e8)']
MUST_RUN = ['linear', 'kalman', 'nonlinear', 'symmetric', 'shape', 'jit', 'permutation', 'batch']


def tasks(tier):
    n = 3 if tier == 'quick' else 10
    return [(f'linear-{k}', linear, dict(k=k)) for k in range(n)] + [(f'nonlinear-{m}-{k}', nonlin, dict(model=m, k=k)) for m in ('ar', 'bernoulli', 'poisson', 'd1') for k in range(1 if tier == 'quick' else 4)]


def linear(mon, rng, tier, k):
    import jax
    import jax.numpy as jnp
    from mfs.utils import posterior_cramer_rao
    for rep in range(8 if tier == 'quick' else 40):
        dx, dy, T, N = int(rng.integers(1, 5)), int(rng.integers(1, 4)), int(rng.choice([1, 2, 5, 8])), int(rng.choice([1, 2, 30]))
        if rep % 8 == 5:
            T = int(rng.integers(70, 130))
        F, Q = rng.normal(size=(dx, dx)), ref.spd(rng, dx, .2, 2.)
        H, R = rng.normal(size=(dy, dx)), ref.spd(rng, dy, .2, 2.)
        P = ref.spd(rng, dx, .3, 2.)
        Qi, Ri = np.linalg.inv(Q), np.linalg.inv(R)
        lt = lambda xt, xs: -.5 * (xt - jnp.asarray(F) @ xs) @ jnp.asarray(Qi) @ (xt - jnp.asarray(F) @ xs)
        ll = lambda y, x: jax.scipy.stats.multivariate_normal.logpdf(y, jnp.asarray(H) @ x, jnp.asarray(R))
        xs, ys = rng.normal(size=(T + 1, N, dx)) * 2, rng.normal(size=(T, N, dy))
        mon.case(nontrivial=T > 1, dx=dx, dy=dy, T=T, N=N, f=float(F[0, 0]))
        js = np.asarray(mon.api(posterior_cramer_rao, jnp.asarray(xs), jnp.asarray(ys), jnp.asarray(np.linalg.inv(P)), lt, ll))
        mon.true('shape', js.shape == (T, dx, dx), f'{js.shape}')
        want = []
        for _ in range(T):
            P = F @ P @ F.T + Q
            S = H @ P @ H.T + R
            P = P - P @ H.T @ np.linalg.solve(S, H @ P)
            P = (P + P.T) / 2
            want.append(np.linalg.inv(P))
        want = np.array(want)
        if max(np.linalg.cond(w) for w in want) > 1e8:
            mon.skip('ill-conditioned')
            continue
        mon.close('linear', js, want, rtol=1e-8, atol=1e-9, msg='information against the inverse Kalman covariance')
        mon.close('kalman', np.linalg.inv(js), np.linalg.inv(want), rtol=1e-7, atol=1e-9)
        mon.true('symmetric', np.all(np.abs(js - np.swapaxes(js, 1, 2)) <= 1e-9 * np.abs(js).max()), 'information matrix not symmetric')
        if rep % 3 == 0:
            j2 = np.asarray(jax.jit(lambda a, b, c: posterior_cramer_rao(a, b, c, lt, ll))(jnp.asarray(xs), jnp.asarray(ys), jnp.asarray(np.linalg.inv(P0 := ref.spd(rng, dx, .3, 2.)))))
            j3 = np.asarray(posterior_cramer_rao(jnp.asarray(xs), jnp.asarray(ys), jnp.asarray(np.linalg.inv(P0)), lt, ll))
            mon.close('jit', j2, j3, rtol=1e-9, atol=1e-10)


def nonlin(mon, rng, tier, model, k):
    import jax
    import jax.numpy as jnp
    from mfs.utils import posterior_cramer_rao
    dx = 1 if model == 'd1' else 2
    t, s = sp.symbols(f't0:{dx}'), sp.symbols(f's0:{dx}')
    y = sp.symbols('y')
    c = [sp.Float(v) for v in np.round(rng.uniform(.3, 1.2, 6), 3)]
    if dx == 2:
        m = [c[0] * sp.sin(s[0]) + c[1] * s[1], s[1] - c[2] * s[0] * s[1] / (1 + s[0] ** 2)]
        v = [c[3] * (1 + s[0] ** 2 / 4), c[4] + c[5] * sp.cos(s[0]) ** 2]
    else:
        m, v = [s[0] + c[0] * sp.sin(s[0])], [c[3] + s[0] ** 2 * c[4]]
    LT = sum(-(t[i] - m[i]) ** 2 / (2 * v[i]) - sp.log(v[i]) / 2 for i in range(dx))
    z = t[0] + (t[1] ** 2 / 3 if dx == 2 else 0)
    if model == 'bernoulli':
        LL = y * sp.log(1 / (1 + sp.exp(-z))) + (1 - y) * sp.log(1 - 1 / (1 + sp.exp(-z)))
    elif model == 'poisson':
        LL = y * z - sp.exp(z)
    else:
        LL = -(y - sp.sin(z)) ** 2 / sp.Float(.5)
    av = (*t, *s)
    Htt = sp.lambdify(av, sp.hessian(LT, t), 'numpy')
    Hss = sp.lambdify(av, sp.hessian(LT, s), 'numpy')
    Hst = sp.lambdify(av, sp.Matrix([[sp.diff(LT, a, b) for b in t] for a in s]), 'numpy')
    Hl = sp.lambdify((y, *t), sp.hessian(LL, t), 'numpy')
    jlt = sp.lambdify(av, LT, 'jax')
    jll = sp.lambdify((y, *t), LL, 'jax')
    lt = lambda a, b: jlt(*[a[i] for i in range(dx)], *[b[i] for i in range(dx)])
    for rep in range(6 if tier == 'quick' else 25):
        T, N = int(rng.choice([1, 2, 4, 8])), int(rng.choice([1, 5, 50]))
        if rep % 6 == 4:
            T, N = (70, 5) if k % 2 else (3, 400)
        xs = rng.normal(size=(T + 1, N, dx)) * .7
        ys = rng.integers(0, 2, (T, N)).astype(float) if model == 'bernoulli' else rng.integers(0, 5, (T, N)).astype(float) if model == 'poisson' else rng.normal(size=(T, N))
        vec = rep % 2
        ll = (lambda b, a: jll(b[0], *[a[i] for i in range(dx)])) if vec else (lambda b, a: jll(b, *[a[i] for i in range(dx)]))
        j0 = ref.spd(rng, dx, 3., 8.)
        mon.case(nontrivial=T > 1, model=model, T=T, N=N, vec=vec, j0=j0[0])
        ya = ys[..., None] if vec else ys
        js = np.asarray(mon.api(posterior_cramer_rao, jnp.asarray(xs), jnp.asarray(ya), jnp.asarray(j0), lt, ll))
        j, want, bad = j0, [], False
        for q in range(T):
            mean = lambda f, *a: np.mean([np.array(f(*[w[i] for w in a]), float).reshape(dx, dx) for i in range(N)], axis=0)
            xt, xp = [xs[q + 1, :, i] for i in range(dx)], [xs[q, :, i] for i in range(dx)]
            d11, d12 = -mean(Hss, *xt, *xp), -mean(Hst, *xt, *xp)
            d22 = -mean(Htt, *xt, *xp) - mean(Hl, ys[q], *xt)
            bad |= np.linalg.cond(j + d11) > 1e5
            j = d22 - d12.T @ np.linalg.solve(j + d11, d12)
            want.append(j)
        if bad:
            mon.skip('ill-conditioned')
            continue
        mon.close('nonlinear', js, np.array(want), rtol=1e-8, atol=1e-8)
        p = rng.permutation(N)
        mon.close('permutation', np.asarray(mon.api(posterior_cramer_rao, jnp.asarray(xs[:, p]), jnp.asarray(ya[:, p]), jnp.asarray(j0), lt, ll)), js, rtol=1e-8, atol=1e-8)
        mon.close('batch', np.asarray(mon.api(posterior_cramer_rao, jnp.asarray(np.concatenate([xs, xs], 1)), jnp.asarray(np.concatenate([ya, ya], 1)), jnp.asarray(j0), lt, ll)), js, rtol=1e-8, atol=1e-8,
                  msg='duplicating every path changes nothing')
