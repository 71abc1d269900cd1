"""C22: the brute-force filter returns the Bayes posterior density on the grid."""
import numpy as np

from rv import ref

RULE = ('Five SDEs (additive and state-dependent noise) x Gaussian / Bernoulli / Poisson / flat / bounded likelihoods (scalar and vector '
        'measurements) x Chapman--Kolmogorov prediction with Euler and TME transitions (orders 1..3) x 1..6 integration steps x even and '
        'uneven grids of 60..400 points, T = 1..8 and 70..110; the Kolmogorov-forward solver on fine grids.  Oracles: the prediction-update '
        'recursion with symbolically derived transition moments; exact linear-Gaussian posteriors; refinement (error proportional to the '
        'step).  Non-trivial: T >= 2 and a non-flat likelihood.')
ASSUMPTIONS = ['float64', 'the grid covers the support of the density']
MUST_RUN = ['chapman', 'normalised', 'nonnegative', 'shape', 'steps-compose', 'exact-linear', 'kolmogorov-fine', 'kolmogorov-rate', 'unknown-method',
            'likelihood-scale', 'kolmogorov-normalised', 'default-method']

TOL = 6e-3


def tasks(tier):
    from rv import sde
    out = [(f'{m}-{p}', run, dict(model=m, order=o)) for m in ('ou', 'benes', 'well', 'geometric', 'sinnoise') for p, o in (('euler', 0), ('tme1', 1), ('tme2', 2), ('tme3', 3))]
    out += [('ou-tme4', run, dict(model='ou', order=4)), ('ou-tme5', run, dict(model='ou', order=5))]
    out += [(f'linear-{k}', linear, dict(k=k)) for k in range(3 if tier == 'quick' else 12)]
    out += [(f'kolmogorov-{m}', kolm, dict(model=m)) for m in ('ou', 'benes', 'geometric', 'sinnoise')]
    return out


def likelihoods(rng, kind, T):
    """(jax pdf(y, x), numpy pdf, ys)"""
    import jax
    import jax.numpy as jnp
    if kind == 'gauss':
        h, s = float(rng.normal()), float(rng.uniform(.3, 1.))
        return (lambda y, x: jax.scipy.stats.norm.pdf(y, h * x, s)), (lambda y, x: np.exp(-.5 * ((y - h * x) / s) ** 2) / s), rng.normal(size=T)
    if kind == 'bernoulli':
        return (lambda y, x: jax.scipy.stats.bernoulli.pmf(y, 1 / (1 + jnp.exp(-x ** 3 / 5)))), \
            (lambda y, x: np.where(y == 1, 1 / (1 + np.exp(-x ** 3 / 5)), 1 - 1 / (1 + np.exp(-x ** 3 / 5)))), rng.integers(0, 2, T)
    if kind == 'poisson':
        return (lambda y, x: jax.scipy.stats.poisson.pmf(y, jnp.log1p(jnp.exp(x)))), \
            (lambda y, x: np.exp(y * np.log(np.log1p(np.exp(x))) - np.log1p(np.exp(x)))), rng.integers(0, 5, T)
    if kind == 'vector':
        h = rng.normal(size=2)
        return (lambda y, x: jnp.exp(-.5 * (y[0] - h[0] * x) ** 2 - (y[1] - h[1] * jnp.sin(x)) ** 2)), \
            (lambda y, x: np.exp(-.5 * (y[0] - h[0] * x) ** 2 - (y[1] - h[1] * np.sin(x)) ** 2)), rng.normal(size=(T, 2))
    if kind == 'bounded':
        return (lambda y, x: jnp.where(x > y, 1., .0)), (lambda y, x: np.where(x > y, 1., 0.)), rng.uniform(-1., .3, T)
    return (lambda y, x: jnp.ones_like(x)), (lambda y, x: np.ones_like(x)), np.zeros(T)


def grid(rng, model, n, even=True):
    a, b = (0.4, 6.) if model == 'geometric' else (-2.4, 2.4) if model == 'well' else (-6., 6.)
    if even:
        return np.linspace(a, b, n)
    u = np.linspace(0, 1, n)
    g = u + 0.6 * np.sin(2 * np.pi * u) / (2 * np.pi)
    return a + (b - a) * g


def init(rng, model, xs, tight=False):
    m = rng.uniform(1.5, 2.5, 2) if model == 'geometric' else rng.uniform(-1.5, 1.5, 2)
    s = rng.uniform(.3, .7, 2) if not tight else rng.uniform(.25, .35, 2)
    m = m * .6 if tight and model == 'well' else m + .3 if tight and model == 'geometric' else m
    p = sum(np.exp(-.5 * ((xs - a) / b) ** 2) / b for a, b in zip(m, s))
    return p / np.trapz(p, xs)


def run(mon, rng, tier, model, order):
    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers.brute_force import brute_force_filter
    from rv import sde
    drift, disp, f, b = sde.models_1d()[model]
    R = sde.Ref([f], [[b]], 1)
    if order:
        fm, fC = R.mean_cov_fn(order)
    kinds = ['gauss', 'bernoulli', 'poisson', 'vector', 'bounded', 'flat']
    for rep in range((2 if order >= 3 else 5) if tier == 'quick' else 18):
        kind = kinds[(rep + int(rng.integers(6))) % 6]
        T, steps = int(rng.choice([1, 2, 5, 8])), int(rng.choice([1, 1, 2, 3, 6, 13]))
        n = int(rng.choice([60, 121, 250, 400]))
        if rep == 1 and order < 3:  # a long record
            T, steps, n = int(rng.integers(70, 110)), 1, 121
        dt = float(10. ** rng.uniform(-1.6, -.5)) if order < 4 else float(rng.uniform(.5, 1.5))
        xs = grid(rng, model, n, even=rep % 2 == 0)
        p0 = init(rng, model, xs)
        pdf, npdf, ys = likelihoods(rng, kind, T)
        ddt = dt / steps
        if order == 0:
            x = sde._syms(1)[0][0]
            import sympy as sp
            m = xs + np.asarray(sp.lambdify(x, f, 'numpy')(xs)) * ddt
            v = (np.asarray(sp.lambdify(x, b, 'numpy')(xs)) + 0 * xs) ** 2 * ddt
        else:
            m = np.asarray(fm((xs,), ddt)[0]) + 0 * xs
            C = np.array([fC((q,), ddt)[0, 0] for q in xs])
            v = C
        if np.any(v <= 0):
            mon.skip('negative-variance')
            continue
        method = 'chapman-euler' if order == 0 else f'chapman-tme-{order}'
        mon.case(model=model, method=method, n=n, T=T, steps=steps, dt=dt, kind=kind, nontrivial=T > 1 and kind != 'flat')
        call = lambda **k: brute_force_filter(drift, disp, k.get('pdf', pdf), jnp.asarray(p0), jnp.asarray(xs), jnp.asarray(ys), k.get('dt', dt),
                                              integration_steps=k.get('steps', steps), pred_method=method)
        out = np.asarray(mon.api(call))
        K = np.exp(-.5 * (xs[:, None] - m[None]) ** 2 / v[None]) / np.sqrt(2 * np.pi * v[None])
        tw = np.zeros(n)
        tw[1:] += np.diff(xs) / 2
        tw[:-1] += np.diff(xs) / 2
        p, want = p0, []
        for y in ys:
            for _ in range(steps):
                p = K @ (tw * p)
            p = p * npdf(y, xs)
            p = p / (tw @ p)
            want.append(p)
        want = np.array(want)
        mon.true('shape', out.shape == (T, n))
        if not np.all(np.isfinite(want)):
            mon.skip('underflow')
            continue
        mon.close('chapman', out, want, rtol=1e-8, atol=1e-12, scale=want.max(1, keepdims=True), msg=method)
        mon.close('normalised', np.trapz(out, xs, axis=1), np.ones(T), rtol=0, atol=1e-10)
        mon.true('nonnegative', np.all(out >= 0), f'minimum density {out.min()}')
        if order < 3 or rep == 0:
            mon.close('likelihood-scale', mon.api(call, pdf=lambda y, x: 1e-3 * pdf(y, x)), out, rtol=1e-9, atol=1e-13, msg='only the shape of the likelihood matters')
        if method == 'chapman-tme-2':
            d = np.asarray(mon.api(brute_force_filter, drift, disp, pdf, jnp.asarray(p0), jnp.asarray(xs), jnp.asarray(ys), dt, steps))
            mon.close('default-method', d, out, rtol=1e-12, atol=1e-13)
            d = np.asarray(jax.jit(lambda q, t: brute_force_filter(drift, disp, pdf, q, jnp.asarray(xs), jnp.asarray(ys), t, steps))(jnp.asarray(p0), dt))
            mon.close('default-method', d, out, rtol=1e-9, atol=1e-12, msg='jit')
        # steps compose: the unmeasured sub-steps as flat measurements
        if steps > 1 and kind not in ('vector',) and (order < 3 or rep % 2):
            flag = np.tile(np.r_[np.zeros(steps - 1), 1.], T)
            ys2 = np.stack([np.repeat(np.asarray(ys, float), steps), flag], 1)
            pdf2 = lambda y, x: jnp.where(y[1] > 0, pdf(y[0] if kind != 'bernoulli' else y[0], x), 1.)
            o2 = np.asarray(mon.api(brute_force_filter, drift, disp, pdf2, jnp.asarray(p0), jnp.asarray(xs), jnp.asarray(ys2), ddt, 1, method))
            mon.close('steps-compose', o2[steps - 1::steps], out, rtol=1e-7, atol=1e-11, msg=method)


def linear(mon, rng, tier, k):
    """OU process with Gaussian measurements: the exact posterior is Gaussian."""
    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers.brute_force import brute_force_filter
    for rep in range(3 if tier == 'quick' else 10):
        th, mu, sg = float(rng.uniform(.3, 1.5)), float(rng.normal() * .5), float(rng.uniform(.4, 1.))
        h, r, dt, T = float(rng.uniform(.5, 1.5)), float(rng.uniform(.4, 1.)), float(rng.uniform(.02, .1)), 6
        m, p = float(rng.normal() * .5), float(rng.uniform(.2, .6))
        xs = np.linspace(-7, 7, 500)
        ys = rng.normal(size=T)
        mon.case(th=th, mu=mu, sg=sg, h=h, r=r, dt=dt)
        p0 = np.exp(-.5 * (xs - m) ** 2 / p) / np.sqrt(2 * np.pi * p)
        a = np.exp(-th * dt)
        want = []
        for y in ys:
            m, p = mu + a * (m - mu), a * a * p + sg ** 2 * (1 - a * a) / (2 * th)
            s = h * h * p + r * r
            g = p * h / s
            m, p = m + g * (y - h * m), p - g * h * p
            want.append(np.exp(-.5 * (xs - m) ** 2 / p) / np.sqrt(2 * np.pi * p))
        want = np.array(want)
        pdf = lambda y, x: jax.scipy.stats.norm.pdf(y, h * x, r)
        for method, steps, tol in (('chapman-tme-3', 3, 6e-5), ('chapman-tme-2', 4, 3e-3), ('chapman-euler', 6, .2)):
            out = np.asarray(mon.api(brute_force_filter, lambda x: th * (mu - x), lambda _: sg, pdf, jnp.asarray(p0), jnp.asarray(xs), jnp.asarray(ys), dt, steps, method))
            mon.close('exact-linear', out, want, rtol=0, atol=tol * (th * dt / .1), msg=method)
        out = np.asarray(mon.api(brute_force_filter, lambda x: th * (mu - x), lambda _: sg, pdf, jnp.asarray(p0), jnp.asarray(xs), jnp.asarray(ys), dt, 200, 'kolmogorov'))
        mon.close('exact-linear', out, want, rtol=0, atol=2e-2, msg='kolmogorov')
    try:
        brute_force_filter(lambda x: -x, lambda _: 1., pdf, jnp.asarray(p0), jnp.asarray(xs), jnp.asarray(ys), dt, 1, 'chapmen')
        mon.true('unknown-method', False, 'an unknown prediction method was accepted')
    except NotImplementedError:
        mon.true('unknown-method', True)


def kolm(mon, rng, tier, model):
    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers.brute_force import brute_force_filter
    from rv import sde
    drift, disp, f, b = sde.models_1d()[model]
    fm, fC = sde.Ref([f], [[b]], 1).mean_cov_fn(3)
    for rep in range(2 if tier == 'quick' else 8):
        kind = ('flat', 'poisson', 'bernoulli')[rep % 3]
        T, dt = 4, .1
        pdf, npdf, ys = likelihoods(rng, kind, T)
        lo, hi = (0.3, 8.) if model == 'geometric' else (-2.8, 2.8) if model == 'well' else (-5.5, 5.5)
        seed = int(rng.integers(2 ** 31))
        mon.case(model=model, kind=kind, seed=seed)
        # reference: many small TME-3 transitions on a grid fine enough for their narrow kernels
        sub, xf = 25, np.linspace(lo, hi, 6 * 149 + 1)
        v = np.array([fC((q,), dt / sub)[0, 0] for q in xf])
        m = np.asarray(fm((xf,), dt / sub)[0]) + 0 * xf
        K = np.exp(-.5 * (xf[:, None] - m) ** 2 / v) / np.sqrt(2 * np.pi * v)
        tw = np.full(len(xf), xf[1] - xf[0])
        tw[[0, -1]] /= 2
        p, want = init(np.random.default_rng(seed), model, xf, True), []
        for y in ys:
            for _ in range(sub):
                p = K @ (tw * p)
            p = p * npdf(y, xf)
            p = p / (tw @ p)
            want.append(p)
        want = np.array(want)[:, ::6]
        outs = []
        for n in (150, 299):
            xs = np.linspace(lo, hi, n)
            p0 = init(np.random.default_rng(seed), model, xs, True)
            out = np.asarray(mon.api(brute_force_filter, drift, disp, pdf, jnp.asarray(p0), jnp.asarray(xs), jnp.asarray(ys), dt, 100 if n == 150 else 400, 'kolmogorov'))
            mon.close('kolmogorov-normalised', np.trapz(out, xs, axis=1), np.ones(T), rtol=0, atol=1e-10)
            outs.append(out if n == 150 else out[:, ::2])
        e0, e1 = (np.max(np.abs(o - want)) / want.max() for o in outs)
        # space and time steps are refined together (dx^2 ~ dt): the error drops by four, and extrapolates away
        ex = np.max(np.abs((4 * outs[1] - outs[0]) / 3 - want)) / want.max()
        mon.true('kolmogorov-fine', ex < TOL, f'extrapolated error {ex}, errors {e0}, {e1}')
        mon.true('kolmogorov-rate', e1 < .4 * e0 + TOL, f'refining the grid does not help: {e0}, {e1}')
        mon.margin['kolmogorov-fine'] = max(mon.margin.get('kolmogorov-fine', 0), ex / TOL)
        mon.margin['kolmogorov-rate'] = max(mon.margin.get('kolmogorov-rate', 0), e1 / (.4 * e0 + TOL))
