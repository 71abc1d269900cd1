"""C11: Gaussian-sum laws: moments, densities and samplers describe one and the same distribution."""
import mpmath as mpm
import numpy as np

from rv import ref

RULE = ('Random Gaussian sums, 1..5 components, d = 1 (N = 1..6) and d = 1..4 (N = 1..3), including zero weights, unequal '
        'variances, strong correlations; samplers observed over large samples and many keys.  Oracle: exact mixture moments '
        'in high precision, analytic mixture density and distribution function (Kolmogorov statistic), key-to-key independence.')
ASSUMPTIONS = ['float64', 'sampler oracles are statistical with per-test false-alarm probability below 1e-6']
MUST_RUN = ['1d-raw', '1d-central', '1d-scaled', '1d-mean', '1d-variance', '1d-pdf', '1d-sampler', 'nd-raw', 'nd-central', 'nd-mean',
            'nd-cov', 'nd-pdf', 'nd-logpdf', 'nd-sampler', 'fields']


def tasks(tier):
    return [('1d', one, {}), ('1d-sampler', one_sampler, {})] + [(f'nd-d{d}', nd, dict(d=d)) for d in (1, 2, 3, 4)] + \
        [(f'nd-sampler-d{d}', nd_sampler, dict(d=d)) for d in (1, 2, 3)]


def weights(rng, k, rep):
    w = rng.dirichlet(np.ones(k) * 2)
    if rep % 5 == 4 and k > 1:
        w[int(rng.integers(k))] = 0.
        w = w / w.sum()
    return w


def one(mon, rng, tier):
    import jax.numpy as jnp
    from mfs.utils import GaussianSum1D
    for rep in range(24 if tier == 'quick' else 200):
        k, N = int(rng.integers(1, 6)), int(rng.integers(1, 7))
        w = weights(rng, k, rep)
        mus, vs = rng.normal(size=k) * 1.5, rng.uniform(.05, 2., k)
        if rep % 3 == 1:  # any units, and far away from the origin
            u = 10. ** rng.uniform(-4, 4)
            mus, vs = mus * u, vs * u ** 2
        if rep % 4 == 2:
            mus = mus + 10. ** rng.uniform(2, 6) * np.sqrt(vs.max()) * rng.choice([-1, 1])
        if rep % 6 == 5:
            N = int(rng.choice([10, 15, 18, 20]))
        mon.case(w=w, mus=mus, vs=vs, N=N)
        g = mon.api(GaussianSum1D.new, means=jnp.asarray(mus), variances=jnp.asarray(vs), weights=jnp.asarray(w), N=N)
        with mpm.workdps(40):
            W = [mpm.mpf(float(x)) for x in w]
            mean = sum(a * mpm.mpf(float(b)) for a, b in zip(W, mus))
            raw = [sum(a * ref.gauss_moments(mpm.mpf(float(m)), mpm.mpf(float(v)), max(2 * N, 2))[p] for a, m, v in zip(W, mus, vs)) for p in range(2 * N)]
            cen = [sum(a * ref.gauss_moments(mpm.mpf(float(m)) - mean, mpm.mpf(float(v)), max(2 * N, 2))[p] for a, m, v in zip(W, mus, vs)) for p in range(2 * N)]
            var = sum(a * (mpm.mpf(float(v)) + (mpm.mpf(float(m)) - mean) ** 2) for a, m, v in zip(W, mus, vs))
            sca = [c / mpm.sqrt(var) ** p for p, c in enumerate(cen)]
        big = np.array([sum(a * float(ref.gauss_moments(abs(m), v, max(2 * N, 2))[p]) for a, m, v in zip(w, mus, vs)) for p in range(2 * N)])
        bigc = np.array([sum(a * float(ref.gauss_moments(abs(m - float(mean)) + .3 * v ** .5, v, max(2 * N, 2))[p]) for a, m, v in zip(w, mus, vs)) for p in range(2 * N)])
        bigc = np.maximum(bigc, float(var) ** (np.arange(2 * N) / 2))
        big = np.maximum(big, float(var) ** (np.arange(2 * N) / 2))
        # centring loses digits in proportion to the distance from the origin, measured in standard deviations
        away = float(np.max(np.abs(mus)) / float(var) ** .5)
        mon.close('1d-mean', g.mean, float(mean), rtol=1e-12, atol=0, scale=abs(float(mean)) + float(var) ** .5)
        mon.close('1d-variance', g.variance, float(var), rtol=1e-12 + 20 * ref.EPS * away, atol=0)
        mon.close('1d-raw', np.asarray(g.rms) / big, ref.f64(raw) / big, rtol=0, atol=1e-12)
        mon.close('1d-central', np.asarray(g.cms) / bigc, ref.f64(cen) / bigc, rtol=0, atol=1e-12 + 20 * ref.EPS * away * np.arange(1, 2 * N + 1))
        sd = float(var) ** .5
        bs = bigc / sd ** np.arange(2 * N)
        mon.close('1d-scaled', np.asarray(g.scms) / bs, ref.f64(sca) / bs, rtol=0, atol=1e-11 + 40 * ref.EPS * away * np.arange(1, 2 * N + 1))
        mon.true('fields', np.array_equal(g.means, mus) and np.array_equal(g.variances, vs) and np.array_equal(g.weights, w), 'stored parameters')
        xs = np.r_[mus, rng.normal(size=7) * 3]
        want = np.sum(w * np.exp(-(xs[:, None] - mus) ** 2 / 2 / vs) / np.sqrt(2 * np.pi * vs), axis=1)
        mon.close('1d-pdf', mon.api(g.pdf, jnp.asarray(xs)), want, rtol=1e-12, atol=1e-300, scale=want)
        mon.close('1d-pdf', np.ravel(np.asarray(mon.api(g.pdf, float(xs[0])))), want[:1], rtol=1e-12, atol=1e-300)


def ks(x, cdf):
    x = np.sort(x)
    n = len(x)
    F = cdf(x)
    return max(np.max(np.arange(1, n + 1) / n - F), np.max(F - np.arange(n) / n)) * np.sqrt(n)


def ncdf(z):
    from scipy.special import ndtr
    return ndtr(z)


def one_sampler(mon, rng, tier):
    import jax
    import jax.numpy as jnp
    from mfs.utils import GaussianSum1D
    n = 60000 if tier == 'quick' else 400000
    for rep in range(6 if tier == 'quick' else 30):
        k = int(rng.integers(1, 5))
        w, mus, vs = weights(rng, k, rep), np.sort(rng.normal(size=k) * 3), rng.uniform(.02, 1., k)
        g = GaussianSum1D.new(means=jnp.asarray(mus), variances=jnp.asarray(vs), weights=jnp.asarray(w), N=2)
        key = jax.random.PRNGKey(int(rng.integers(2 ** 31)))
        mon.case(w=w, mus=mus, vs=vs, n=n)
        x = np.asarray(mon.api(g.sampler, key, n))
        mon.true('1d-sampler', x.shape == (n,) and np.all(np.isfinite(x)), 'shape of the samples')
        cdf = lambda t: np.sum(w * ncdf((t[:, None] - mus) / np.sqrt(vs)), axis=1)
        d = ks(x, cdf)
        mon.true('1d-sampler', d < 2.8, f'Kolmogorov statistic {d:.3g}')
        mon.true('1d-sampler', np.array_equal(x, np.asarray(g.sampler(key, n))), 'the sampler is a function of its key')
        y = np.asarray(mon.api(g.sampler, jax.random.PRNGKey(int(rng.integers(2 ** 31))), n))
        c = np.corrcoef(x, y)[0, 1] * np.sqrt(n)
        mon.true('1d-sampler', abs(c) < 5.5, f'samples of different keys are correlated: z = {c:.3g}')
        c = np.corrcoef(x[:-1], x[1:])[0, 1] * np.sqrt(n)
        mon.true('1d-sampler', abs(c) < 5.5, f'successive samples are correlated: z = {c:.3g}')
        # small requests
        for m in (1, 2, 3):
            mon.true('1d-sampler', np.shape(g.sampler(key, m)) == (m,), f'{m} samples')


def nd(mon, rng, tier, d):
    import jax.numpy as jnp
    from mfs.utils import GaussianSumND
    from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices
    from scipy.stats import multivariate_normal as mvn
    for rep in range(6 if tier == 'quick' else 40):
        k, N = int(rng.integers(1, 4)), int(rng.integers(1, 4 if d < 3 else 3))
        w = weights(rng, k, rep)
        mus, covs = rng.normal(size=(k, d)), np.array([ref.spd(rng, d, .05, 1.5) for _ in range(k)])
        mi = generate_graded_lexico_multi_indices(d, 2 * N - 1)
        mon.case(w=w, mus=mus, covs=covs, N=N)
        g = mon.api(GaussianSumND.new, jnp.asarray(mus), jnp.asarray(covs), jnp.asarray(w), mi)
        mean = w @ mus
        C = sum(a * (c + np.outer(m - mean, m - mean)) for a, m, c in zip(w, mus, covs))
        mis = [tuple(int(v) for v in m) for m in mi]

        def mom(off):
            with mpm.workdps(30):
                tot = [mpm.mpf(0)] * len(mis)
                for a, m, c in zip(w, mus, covs):
                    r = [ref.isserlis([mpm.mpf(float(v)) for v in (m - off)], [[mpm.mpf(float(v)) for v in q] for q in c], n) for n in mis]
                    tot = [t + mpm.mpf(float(a)) * v for t, v in zip(tot, r)]
                return ref.f64(tot)

        from rv.props.c10 import kan_scale
        sc = np.array([sum(a * kan_scale(m, c, n) for a, m, c in zip(w, mus, covs)) for n in mis]) + 1e-3
        mon.close('nd-raw', np.asarray(g.rms) / sc, mom(np.zeros(d)) / sc, rtol=0, atol=1e-12)
        mon.close('nd-central', np.asarray(g.cms) / sc, mom(mean) / sc, rtol=0, atol=1e-10)
        mon.close('nd-mean', g.mean, mean, rtol=1e-12, atol=1e-13)
        mon.close('nd-cov', g.cov, C, rtol=1e-11, atol=1e-12)
        mon.true('fields', int(g.d) == d and np.array_equal(g.means, mus) and np.array_equal(g.covs, covs) and np.array_equal(g.weights, w), 'stored parameters')
        for x in list(mus) + [rng.normal(size=d) * 2 for _ in range(3)]:
            want = sum(a * mvn.pdf(x, m, c) for a, m, c in zip(w, mus, covs))
            mon.close('nd-pdf', mon.api(g.pdf, jnp.asarray(x)), want, rtol=1e-10, atol=1e-300)
            mon.close('nd-logpdf', mon.api(g.logpdf, jnp.asarray(x)), np.log(want), rtol=1e-10, atol=1e-10)
        H = 10. ** rng.uniform(3, 8)  # far from the origin
        m2 = mus + H * rng.choice([-1., 1.], d)
        c2 = w @ (m2 - m2[0]) + m2[0]
        C2 = sum(a * (c + np.outer(m - c2, m - c2)) for a, m, c in zip(w, m2, covs))
        g2 = mon.api(GaussianSumND.new, jnp.asarray(m2), jnp.asarray(covs), jnp.asarray(w), mi[:1])
        mon.close('nd-mean', g2.mean, c2, rtol=1e-14, atol=0)
        mon.close('nd-cov', g2.cov, C2, rtol=0, atol=1e-10 + 1e-14 * H, msg=f'means at {H:.3g} ')
        far = mean + 60 * np.sqrt(np.diag(C).max())
        from scipy.special import logsumexp
        lw = logsumexp([mvn.logpdf(far, m, c) for m, c in zip(mus, covs)], b=w)
        mon.close('nd-logpdf', mon.api(g.logpdf, jnp.asarray(far)), lw, rtol=1e-9, atol=1e-9, msg='far tail')


def nd_sampler(mon, rng, tier, d):
    import jax
    import jax.numpy as jnp
    from mfs.utils import GaussianSumND
    from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices
    n = 40000 if tier == 'quick' else 300000
    for rep in range(3 if tier == 'quick' else 15):
        k = int(rng.integers(1, 4))
        w, mus = weights(rng, k, rep), rng.normal(size=(k, d)) * 2
        covs = np.array([ref.spd(rng, d, .02, 1.5) for _ in range(k)])
        g = GaussianSumND.new(jnp.asarray(mus), jnp.asarray(covs), jnp.asarray(w), generate_graded_lexico_multi_indices(d, 3))
        key = jax.random.PRNGKey(int(rng.integers(2 ** 31)))
        mon.case(w=w, mus=mus, covs=covs, n=n)
        x = np.asarray(mon.api(g.sampler, key, n))
        mon.true('nd-sampler', x.shape == (n, d) and np.all(np.isfinite(x)), 'shape of the samples')
        dirs = list(np.eye(d)) + [v / np.linalg.norm(v) for v in rng.normal(size=(4, d))]
        for u in dirs:
            mu, sd = mus @ u, np.sqrt(np.einsum('i,kij,j->k', u, covs, u))
            z = x @ u
            s = ks(z, lambda t: np.sum(w * ncdf((t[:, None] - mu) / sd), axis=1))
            mon.true('nd-sampler', s < 2.8, f'Kolmogorov statistic of a projection {s:.3g}', direction=u)
        y = np.asarray(mon.api(g.sampler, jax.random.PRNGKey(int(rng.integers(2 ** 31))), n))
        c = np.corrcoef(x[:, 0], y[:, 0])[0, 1] * np.sqrt(n)
        mon.true('nd-sampler', abs(c) < 5.5, f'samples of different keys are correlated: z = {c:.3g}')
        mon.true('nd-sampler', np.array_equal(x, np.asarray(g.sampler(key, n))), 'the sampler is a function of its key')
