"""C28: the shipped state-space models are mutually consistent: simulators follow the SDE, likelihoods are distributions."""
import math

import numpy as np
import sympy as sp

RULE = ('All four shipped models; random states, parameters and keys; simulated trajectories from many keys and starting points.  Oracles: the model '
        'equations; normalisation of the measurement laws; probability-integral transform of the simulated increments under the exact (Benes) or '
        'symbolically expanded (double-well, prey-predator) transition law; binomial statistics of simulated measurements given simulated states; '
        'Gaussian-sum law of simulated initial states.  Non-trivial: every case with a random state.')
ASSUMPTIONS = ['float64', 'statistical oracles have a false-alarm probability below 1e-6 per run']
MUST_RUN = ['grid', 'drift', 'dispersion', 'emission', 'pmf', 'pmf-normalised', 'initial', 'pit', 'pit-independent', 'key', 'other-key', 'satellite', 'sim-ys', 'sim-x0', 'lv-noise', 'lv-independent', 'lv-drift', 'sim-shape',
            'ys-state', 'lv-mean', 'default-steps']


def tasks(tier):
    return [('benes', benes, {}), ('well-2', well, dict(p=2.)), ('well-3', well, dict(p=3.)), ('satellite', sat, {})] + [(f'prey-{k}', prey, dict(k=k)) for k in range(3 if tier == 'quick' else 8)] + [('prey-functions', preyf, {}), ('prey-drift', prey_drift, {})]


def common(mon, dt, T, ts, want_dt, want_T):
    mon.true('grid', dt == want_dt and T == want_T, f'dt = {dt}, T = {T}')
    mon.close('grid', ts, dt * np.arange(1, T + 1), rtol=1e-12, atol=1e-14)


def init1d(mon, ic, N):
    import jax
    mon.close('initial', ic.means, [-.5, .5], rtol=1e-15)
    mon.close('initial', ic.variances, [.05, .05], rtol=1e-15)
    mon.close('initial', ic.weights, [.5, .5], rtol=1e-15)
    mon.true('initial', ic.rms.shape == (2 * N,) and ic.cms.shape == (2 * N,) and ic.scms.shape == (2 * N,), f'{ic.rms.shape}')
    mon.close('initial', float(ic.variance), .3, rtol=1e-12)
    if N >= 2:
        mon.close('initial', ic.rms[:4], [1., 0., .3, 0.], rtol=1e-12, atol=1e-14)
    # the field `sampler` and `pdf` describe the same law
    x = np.sort(np.asarray(ic.sampler(jax.random.PRNGKey(5), 20000)))
    from scipy.stats import norm
    F = .5 * norm.cdf(x, -.5, math.sqrt(.05)) + .5 * norm.cdf(x, .5, math.sqrt(.05))
    mon.true('initial', np.max(np.abs(F - (np.arange(len(x)) + .5) / len(x))) < 2.8 / math.sqrt(len(x)), 'sampler and Gaussian sum differ')


def uniformity(mon, u, tag='pit', tol=0.):
    """u: (K, T) should be iid uniform."""
    z = np.sort(u.ravel())
    n = z.size
    D = np.max(np.abs(z - (np.arange(n) + .5) / n))
    mon.true(tag, D < 2.8 / math.sqrt(n) + tol, f'Kolmogorov distance {D} with {n} increments')
    g = np.sqrt(12) * (u - .5)
    for lag in (1, 2):
        r = np.mean(g[:, lag:] * g[:, :-lag])
        mon.true(tag + '-independent', abs(r) < 6 / math.sqrt(n) + tol, f'lag-{lag} correlation {r}')
    r = np.mean(g[1:] * g[:-1])
    mon.true(tag + '-independent', abs(r) < 6 / math.sqrt(n) + tol, f'correlation between trajectories of consecutive keys {r}')
    c = np.mean(g, 0)
    mon.true(tag + '-independent', np.max(np.abs(c)) < 6.5 / math.sqrt(u.shape[0]), f'the increments of one time step are biased: {np.max(np.abs(c))}')


def benes(mon, rng, tier):
    import jax
    import jax.numpy as jnp
    from scipy.stats import norm
    from mfs.one_dim.ss_models import benes_bernoulli
    for N in (1, 2, 5):
        dt, T, ts, ic, drift, disp, logistic, pmf, sim = mon.api(benes_bernoulli, N)
        common(mon, dt, T, ts, 1e-2, 100)
        init1d(mon, ic, N)
    for _ in range(60):
        x = float(rng.normal() * 2)
        mon.case(model='benes', x=x)
        mon.close('drift', float(drift(x)), math.tanh(x), rtol=1e-12)
        mon.close('dispersion', float(disp(x)), 1., rtol=1e-15)
        pr = 1 / (1 + math.exp(-x ** 3 / 5))
        mon.close('emission', float(logistic(x)), pr, rtol=1e-12)
        mon.close('pmf', [float(pmf(1, x)), float(pmf(0, x))], [pr, 1 - pr], rtol=1e-10)
        mon.close('pmf-normalised', float(pmf(0, x)) + float(pmf(1, x)), 1., rtol=1e-12)
    K = 1500 if tier == 'quick' else 10000
    seed = int(rng.integers(2 ** 31))
    keys = jax.random.split(jax.random.PRNGKey(seed), K)
    x0 = rng.normal(size=K)
    mon.case(model='benes', seed=seed, K=K)
    xs = np.concatenate([np.asarray(mon.api(jax.vmap(sim), jnp.asarray(x0[i:i + 250]), keys[i:i + 250])) for i in range(0, K, 250)])
    mon.true('sim-shape', xs.shape == (K, T), f'{xs.shape}')
    prev = np.concatenate([x0[:, None], xs[:, :-1]], 1)
    wp = 1 / (1 + np.exp(-2 * prev))
    u = wp * norm.cdf(xs, prev + dt, math.sqrt(dt)) + (1 - wp) * norm.cdf(xs, prev - dt, math.sqrt(dt))
    uniformity(mon, u)
    one = np.asarray(mon.api(sim, float(x0[3]), keys[3]))
    mon.close('key', one, xs[3], rtol=1e-8, atol=1e-8)
    mon.true('other-key', not np.allclose(np.asarray(sim(float(x0[3]), keys[4])), one), 'another key, same trajectory')


def well(mon, rng, tier, p):
    import jax
    import jax.numpy as jnp
    from scipy.stats import norm, poisson
    from mfs.one_dim.ss_models import well_poisson
    from rv import sde
    for N in (2, 4):
        dt, T, ts, ic, drift, disp, emission, pmf, sim = mon.api(well_poisson, p, N)
        common(mon, dt, T, ts, 1e-2, 1000)
        init1d(mon, ic, N)
    for _ in range(60):
        x, q = float(rng.normal() * (1.5 if _ % 4 else 10.)), float(rng.uniform(.5, 4))
        mon.case(model='well', x=x, q=q)
        mon.close('drift', float(drift(x, q)), x * (1 - q * x * x), rtol=1e-12)
        mon.close('dispersion', float(disp(x)), 1., rtol=1e-15)
        lam = math.log1p(math.exp(q * x))
        mon.close('emission', float(emission(x, q)), lam, rtol=1e-10, atol=1e-13)
        ys = np.arange(0, 60)
        got = np.array([float(v) for v in np.asarray(pmf(jnp.asarray(ys), x, q))])
        mon.close('pmf', got, poisson.pmf(ys, lam), rtol=1e-9, atol=1e-12)
        big = int(rng.poisson(lam)) + int(rng.integers(0, 3))
        mon.close('pmf', float(pmf(big, x, q)), poisson.pmf(big, lam), rtol=1e-8, atol=1e-12, msg=f'count {big}')
        if lam < 20:
            mon.close('pmf-normalised', got.sum(), 1., rtol=1e-8)
    K = 200 if tier == 'quick' else 1500
    seed = int(rng.integers(2 ** 31))
    keys = jax.random.split(jax.random.PRNGKey(seed), K)
    x0 = rng.normal(size=K) * .7
    mon.case(model='well', seed=seed, K=K, p=p)
    xs = np.concatenate([np.asarray(mon.api(jax.vmap(sim), jnp.asarray(x0[i:i + 50]), keys[i:i + 50])) for i in range(0, K, 50)])
    mon.true('sim-shape', xs.shape == (K, T), f'{xs.shape}')
    prev = np.concatenate([x0[:, None], xs[:, :-1]], 1)
    z = sde._syms(1)[0][0]
    fm, fC = sde.Ref([z * (1 - sp.Float(p) * z ** 2)], [[sp.Integer(1)]], 1).mean_cov_fn(3)
    m = np.asarray(fm((prev,), dt)[0])
    v = np.asarray(fC((prev,), dt)[0][0])
    ok = v > 0
    u = np.where(ok, norm.cdf(xs, m, np.sqrt(np.where(ok, v, 1.))), rng.uniform(size=v.shape))
    uniformity(mon, u, tol=5e-4)
    one = np.asarray(mon.api(sim, float(x0[3]), keys[3]))
    mon.close('key', one[:100], xs[3][:100], rtol=1e-7, atol=1e-7)
    mon.true('other-key', not np.allclose(np.asarray(sim(float(x0[3]), keys[4])), one), 'another key, same trajectory')


def sat(mon, rng, tier):
    import jax.numpy as jnp
    from mfs.multi_dims.ss_models import satellite_orbital_stability
    for rep in range(60 if tier == 'quick' else 300):
        a, b, c = (1., 1., 1.) if rep % 4 == 0 else rng.uniform(-2, 2, 3)
        x = rng.normal(size=2) * 2
        mon.case(a=a, b=b, c=c, x=x)
        drift, disp = mon.api(satellite_orbital_stability) if rep % 4 == 0 else mon.api(satellite_orbital_stability, a, b, c)
        mon.close('satellite', drift(jnp.asarray(x)), [x[1], -b * x[1] - math.sin(x[0]) - c * math.sin(2 * x[0])], rtol=1e-12, atol=1e-13)
        mon.close('satellite', disp(jnp.asarray(x)), [[0., 0.], [0., -a * b * x[1] - b * math.sin(x[0])]], rtol=1e-12, atol=1e-13)


def model():
    from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices
    from mfs.multi_dims.ss_models import prey_predator
    mi = generate_graded_lexico_multi_indices(2, 3, 0)
    return mi, prey_predator(mi)


def preyf(mon, rng, tier):
    import jax.numpy as jnp
    from rv import ref
    mi, (dt, T, ts, gs, drift, disp, emission, pmf, sim) = mon.api(model)
    common(mon, dt, T, ts, 1e-3, 2000)
    mon.close('initial', gs.means, np.ones((2, 2)), rtol=1e-15)
    mon.close('initial', gs.covs, np.array([np.eye(2), 2 * np.eye(2)]) * 1e-3, rtol=1e-14)
    mon.close('initial', gs.weights, [.5, .5], rtol=1e-15)
    mon.close('initial', gs.cov, 1.5e-3 * np.eye(2), rtol=1e-9, atol=1e-14)
    want = [.5 * float(ref.isserlis([1., 1.], 1e-3 * np.eye(2), i)) + .5 * float(ref.isserlis([1., 1.], 2e-3 * np.eye(2), i)) for i in mi]
    mon.close('initial', gs.rms, want, rtol=1e-10)
    for _ in range(100):
        x = rng.uniform(.1, 2.5, 2)
        mon.case(x=x)
        mon.close('drift', drift(jnp.asarray(x)), [x[0] * (4 - 4 * x[1]), x[1] * (4 * x[0] - 4)], rtol=1e-12, atol=1e-13)
        mon.close('dispersion', disp(jnp.asarray(x)), np.diag(.1 * x), rtol=1e-13, atol=1e-15)
        pr = 1 / (1 + math.exp(-x[0] ** 3 + 1))
        mon.close('emission', float(emission(float(x[0]))), pr, rtol=1e-12)
        mon.close('pmf', [float(pmf(1, jnp.asarray(x))), float(pmf(0, jnp.asarray(x)))], [pr, 1 - pr], rtol=1e-10)
        mon.close('pmf-normalised', float(pmf(0, jnp.asarray(x))) + float(pmf(1, jnp.asarray(x))), 1., rtol=1e-12)


def prey_drift(mon, rng, tier):
    """Many trajectories with few integration steps: the accumulated noise, log x minus its drift, has mean zero (an O(dt) drift error shows)."""
    import jax
    mi, (dt, T, ts, gs, drift, disp, emission, pmf, sim) = mon.api(model)
    K, chunk, steps, s = (12000 if tier == 'quick' else 100000), 1000, 4, .1
    seed = int(rng.integers(2 ** 31))
    keys = jax.random.split(jax.random.PRNGKey(seed), K)
    mon.case(model='prey', seed=seed, K=K, steps=steps)
    f = jax.jit(jax.vmap(lambda k: sim(k, steps)[:2]))
    W = []
    for i in range(0, K, chunk):
        x0, xs = (np.asarray(v) for v in mon.api(f, keys[i:i + chunk]))
        path = np.concatenate([x0[:, None], xs], 1)
        avg = (path[:, 1:] + path[:, :-1]) / 2
        a = np.stack([4 - 4 * avg[..., 1], 4 * avg[..., 0] - 4], -1)
        # log of one discretised step: a h - s^2 h / 2 - a^2 h^2 / 2 with h = dt / steps
        W.append((np.log(path[:, -1]) - np.log(path[:, 0]) - np.sum((a - s * s / 2) * dt - a ** 2 * dt * dt / steps / 2, 1)) / (s * math.sqrt(T * dt)))
    W = np.concatenate(W)
    mon.true('lv-mean', np.all(np.abs(W.mean(0)) < 6 / math.sqrt(K) + .008) and np.all(np.abs(W.var(0) - 1) < 6 * math.sqrt(2 / K) + .02), f'accumulated noise {W.mean(0)}, {W.var(0)} of {K} trajectories')


def prey(mon, rng, tier, k):
    import jax
    mi, (dt, T, ts, gs, drift, disp, emission, pmf, sim) = mon.api(model)
    K = 200 if tier == 'quick' else 1000
    seed = int(rng.integers(2 ** 31))
    keys = jax.random.split(jax.random.PRNGKey(seed), K)
    steps = (None, 100, 40, 250)[k % 4]  # default, explicit, coarser, finer integration
    base = sim
    if steps is not None:
        sim = (lambda key: base(key, steps)) if k % 2 else (lambda key: base(key, integration_steps=steps))
    mon.case(model='prey', seed=seed, K=K, steps=steps)
    outs = [mon.api(jax.vmap(sim), keys[i:i + 20]) for i in range(0, K, 20)]
    x0, xs, ys = (np.concatenate([np.asarray(o[j]) for o in outs]) for j in range(3))
    mon.true('sim-shape', x0.shape == (K, 2) and xs.shape == (K, T, 2) and ys.shape == (K, T), f'{x0.shape} {xs.shape} {ys.shape}')
    # increments of log x: d log x1 = (4 - 4 x2 - s^2/2) dt + s dW
    path = np.concatenate([x0[:, None], xs], 1)
    avg = (path[:, 1:] + path[:, :-1]) / 2
    s = .1
    r = np.stack([np.diff(np.log(path[..., 0]), axis=1) - (4 - 4 * avg[..., 1] - s * s / 2) * dt,
                  np.diff(np.log(path[..., 1]), axis=1) - (4 * avg[..., 0] - 4 - s * s / 2) * dt], -1) / (s * math.sqrt(dt))
    n = K * T
    mon.true('lv-drift', np.all(np.abs(r.mean((0, 1))) < 6 / math.sqrt(n) + 5e-4), f'mean residual {r.mean((0, 1))}')
    mon.true('lv-noise', np.all(np.abs(r.var((0, 1)) - 1) < 6 * math.sqrt(2 / n) + 4e-3), f'variance of the residual {r.var((0, 1))}')
    from scipy.stats import norm
    for i in range(2):
        z = np.sort(norm.cdf(r[..., i].ravel()))
        mon.true('lv-noise', np.max(np.abs(z - (np.arange(n) + .5) / n)) < 2.8 / math.sqrt(n) + 2e-3, 'residuals not normal')
    mon.true('lv-independent', abs(np.mean(r[..., 0] * r[..., 1])) < 6 / math.sqrt(n) + 1e-3, f'noises of the two species correlate {np.mean(r[..., 0] * r[..., 1])}')
    for lag in (1, 2, 3):
        c = np.mean(r[:, lag:] * r[:, :-lag], (0, 1))
        mon.true('lv-independent', np.all(np.abs(c) < 6 / math.sqrt(n) + 1e-3), f'lag-{lag} correlation {c}')
    mon.true('lv-independent', np.all(np.abs(np.mean(r[1:] * r[:-1], (0, 1))) < 6 / math.sqrt(n)), 'consecutive keys correlate')
    # over the whole window the accumulated noise is Brownian
    W = r.sum(1) / math.sqrt(T)
    mon.true('lv-mean', np.all(np.abs(W.mean(0)) < 6 / math.sqrt(K) + .03) and np.all(np.abs(W.var(0) - 1) < 6 * math.sqrt(2 / K)), f'accumulated noise {W.mean(0)}, {W.var(0)}')
    # initial law
    e = x0 - 1.
    mon.true('sim-x0', np.all(np.abs(e.mean(0)) < 6 * math.sqrt(1.5e-3 / K)) and np.all(np.abs(e.var(0) / 1.5e-3 - 1) < 6 * math.sqrt(2.6 / K)), f'{e.mean(0)} {e.var(0)}')
    z0 = e / math.sqrt(1.5e-3)
    mon.true('sim-x0', np.all(np.abs(np.mean(z0[:, None, :] * r[:, :5], (0,))) < 6.5 / math.sqrt(K)), 'initial state and driving noise correlate')
    # measurements given the states
    pr = 1 / (1 + np.exp(-xs[..., 0] ** 3 + 1))
    y = ys.astype(float)
    q = (y - pr) / np.sqrt(pr * (1 - pr))
    mon.true('sim-ys', set(np.unique(y)) <= {0., 1.} and abs(q.mean()) < 6 / math.sqrt(n), f'mean standardised measurement residual {q.mean()}')
    for f in (xs[..., 0], xs[..., 1], np.sin(5 * xs[..., 0])):
        g = (f - f.mean()) / f.std()
        mon.true('ys-state', abs(np.mean(q * g)) < 6 / math.sqrt(n), f'measurement residual correlates with the state: {np.mean(q * g)}')
    mon.true('ys-state', abs(np.mean(q[:, 1:] * q[:, :-1])) < 6 / math.sqrt(n) and abs(np.mean(q[..., None] * r)) < 6 / math.sqrt(n) and abs(np.mean(q[1:] * q[:-1])) < 6 / math.sqrt(n), 'measurement noise is not independent')
    o = sim(keys[2])
    mon.close('key', np.asarray(o[1]), xs[2], rtol=1e-6, atol=1e-6)
    mon.true('other-key', not np.allclose(xs[0], xs[1]), 'another key, same trajectory')
    if steps == 100:
        mon.close('default-steps', np.asarray(base(keys[3])[1]), xs[3], rtol=1e-6, atol=1e-6)
