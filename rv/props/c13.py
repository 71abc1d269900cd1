"""C13: one-dimensional conditional moments are those of the chosen transition approximation."""
import numpy as np

from rv import ref

RULE = ('Five SDE models (linear, Benes, double-well, geometric, state-dependent noise) x Euler / TME / Normal-TME (orders 1..4) '
        'x random nodes (also zero, repeated and equal to the centring mean), centring means, scales, time steps, arbitrary index '
        'vectors, plain and jit with traced dt/mean/scale, also in state units of 1e-5..1e5, at orders up to 23 and with the origin moved by up to 1e4.  Oracle: symbolic generator powers and exact Gaussian moments.  '
        'Non-trivial: moment order >= 2.')
ASSUMPTIONS = ['float64', 'Normal approximations are exercised where the approximate conditional variance is non-negative']
MUST_RUN = ['units', 'raw', 'central', 'scaled', 'mean', 'mean-var', 'jit', 'consistent', 'exact-ou']
MODELS = ['ou', 'benes', 'well', 'geometric', 'sinnoise']


def tasks(tier):
    out = []
    for m in MODELS:
        out.append((f'euler-{m}', run, dict(model=m, kind='euler', order=1)))
        for o in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
            out.append((f'tme{o}-{m}', run, dict(model=m, kind='tme', order=o)))
            out.append((f'normal{o}-{m}', run, dict(model=m, kind='normal', order=o)))
    out += [(f'high-{k}{o}-{m}-{w}', high, dict(model=m, kind=k, order=o, what=w)) for k, o, m, w in (
        ('normal', 4, 'ou', 'all'), ('normal', 5, 'ou', 'all'), ('normal', 4, 'geometric', 'scaled'), ('tme', 4, 'ou', 'mean-var'), ('tme', 4, 'ou', 'mean'), ('tme', 4, 'ou', 'scaled'),
        ('normal', 6, 'ou', 'mean'), ('tme', 6, 'ou', 'mean'), ('normal', 4, 'well', 'mean'), ('tme', 4, 'benes', 'mean'))]
    out += [(f'many-{k}{o}-{m}', many, dict(model=m, kind=k, order=o)) for k, o, m in (
        ('euler', 1, 'geometric'), ('euler', 1, 'sinnoise'), ('normal', 1, 'well'), ('normal', 2, 'benes'), ('tme', 1, 'sinnoise'), ('tme', 2, 'ou'))]
    out.append(('exact-ou', exact_ou, {}))
    return sorted(out, key=lambda t: -t[2].get('order', 3))


def make(kind, drift, disp, dt, order, N):
    from mfs.one_dim import moments as m
    if kind == 'euler':
        return m.sde_cond_moments_euler(drift, disp, dt, N)
    if kind == 'tme':
        return m.sde_cond_moments_tme(drift, disp, dt, order)
    return m.sde_cond_moments_tme_normal(drift, disp, dt, order, N)


def run(mon, rng, tier, model, kind, order):
    import jax
    import jax.numpy as jnp
    from rv import sde
    drift, disp, f, b = sde.models_1d()[model]
    R = sde.Ref([f], [[b]], 1)
    fm, fC = R.mean_cov_fn(order)
    compiled = {}
    for rep in range(3 if tier == 'quick' else 15):
        N = (4, 2, 3, 1)[rep % 4] if order < 3 else 2 if tier == 'quick' else (2, 3)[rep % 2]
        dt = float(10. ** rng.uniform(-3, -1))
        mean = float(rng.normal())
        scale = float(10. ** rng.uniform(-.7, .7))
        xs = np.r_[rng.normal(size=4) * 1.5, 0., mean]
        xs = np.r_[xs, xs[0]]
        inds = rng.permutation(2 * N)
        if rep % 2 and order < 3:
            inds = np.r_[inds, inds[:1]]
        mu = np.array([fm((x,), dt)[0] for x in xs])
        var = np.array([fC((x,), dt)[0, 0] for x in xs])
        if kind != 'tme' and np.any(var < 0):
            mon.skip('negative-variance')
            continue
        mon.case(model=model, kind=kind, order=order, dt=dt, mean=mean, scale=scale, N=N, inds=inds, nontrivial=N > 1)

        def want(c, s):
            if kind == 'tme':
                return np.stack([R.moment_fn((int(n),), order)(([xs]), (c,), (s,), dt) + 0 * xs for n in inds], axis=1)
            g = ref.gauss_moments((mu - c) / s, var / s ** 2, max(2 * N, 2))
            return np.stack([g[int(n)] + 0 * xs for n in inds], axis=1)

        def big(c, s):
            a = np.abs((xs - c) / s) + np.sqrt(np.abs(var)) / s + np.abs(mu - c) / s
            return np.stack([np.maximum(1., 1.) * (a + 1e-3) ** int(n) + (dt if n else 0.) * (1 + a) ** int(n) / min(s, 1.) ** int(n) for n in inds], axis=1)

        slow = order >= 3 and kind != 'euler'
        if slow:  # compiled once per shape; dt, mean and scale stay traced
            k = (N, len(inds))
            if k not in compiled:
                def call(u, t, c, s, x, i, N=N):
                    q = make(kind, lambda z: u * drift(z / u), lambda z: u * disp(z / u), t, order, N)
                    return q[0](u * x, i), q[1](u * x, i, u * c), q[2](u * x, i, u * c, u * s), q[3](u * x), q[4](u * x)
                compiled[k] = jax.jit(call)
            outs = mon.api(compiled[k], 1., dt, mean, scale, jnp.asarray(xs), jnp.asarray(inds))
            fs = [lambda *a, o=o: o for o in outs]
        else:
            fs = mon.api(make, kind, drift, disp, dt, order, N)
        X, I = jnp.asarray(xs), jnp.asarray(inds)
        mon.true('consistent', len(fs) == 5, 'five functions')
        b0 = big(0., 1.)
        w = want(0., 1.)
        mon.close('raw', np.asarray(mon.api(fs[0], X, I)) / b0, w / b0, rtol=0, atol=1e-10)
        bc = big(mean, 1.)
        wc = want(mean, 1.)
        gc = np.asarray(mon.api(fs[1], X, I, mean))
        mon.close('central', gc / bc, wc / bc, rtol=0, atol=1e-10)
        bs = big(mean, scale)
        ws = want(mean, scale)
        gs = np.asarray(mon.api(fs[2], X, I, mean, scale))
        mon.close('scaled', gs / bs, ws / bs, rtol=0, atol=1e-10)
        mon.close('consistent', gs * scale ** inds / bc, gc / bc, rtol=0, atol=1e-9 * max(1., (bs * scale ** inds / bc).max()))
        mon.close('mean', mon.api(fs[3], X), mu, rtol=1e-11, atol=1e-12)
        m2, v2 = mon.api(fs[4], X)
        mon.close('mean-var', m2, mu, rtol=1e-11, atol=1e-12)
        mon.close('mean-var', v2, var, rtol=1e-9, atol=1e-13)
        # at N: every entry of order 0 is one, of order 1 the centred mean
        for col, n in enumerate(inds):
            if n == 0:
                mon.close('consistent', gs[:, col], np.ones(len(xs)), rtol=0, atol=1e-12)
            if n == 1:
                mon.close('consistent', gs[:, col], (mu - mean) / scale, rtol=1e-10, atol=1e-12)
        # the law in other units of the state: same scaled moments, mean and standard deviation in the new units
        u = float(10. ** rng.uniform(-5, 5))
        if slow:
            _, _, us, um, (_, uv) = mon.api(compiled[N, len(inds)], u, dt, mean, scale, X, I)
        else:
            q = make(kind, lambda z: u * drift(z / u), lambda z: u * disp(z / u), dt, order, N)
            us, um, (_, uv) = mon.api(q[2], u * X, I, u * mean, u * scale), q[3](u * X), q[4](u * X)
        um, uv = np.asarray(um) / u, np.asarray(uv) / u ** 2
        mon.close('units', np.asarray(us) / bs, ws / bs, rtol=0, atol=1e-10, msg=f'unit {u:.3g}')
        mon.close('units', um, mu, rtol=1e-11, atol=1e-12, msg=f'unit {u:.3g}')
        mon.close('units', uv, var, rtol=1e-9, atol=1e-13, msg=f'unit {u:.3g}')
        if rep == 0 and not slow:
            j = jax.jit(lambda t, c, s, x: (lambda q: (q[0](x, I), q[1](x, I, c), q[2](x, I, c, s), q[3](x), q[4](x)))(make(kind, drift, disp, t, order, N)))
            r, c, s, m, (m2, v2) = j(dt, mean, scale, X)
            for got, ww, bb in ((r, w, b0), (c, wc, bc), (s, ws, bs)):
                mon.close('jit', np.asarray(got) / bb, ww / bb, rtol=0, atol=1e-10)
            mon.close('jit', m, mu, rtol=1e-11, atol=1e-12)
            mon.close('jit', v2, var, rtol=1e-9, atol=1e-13)


def many(mon, rng, tier, model, kind, order):
    """Moments of high order, and states far from the origin."""
    import jax
    import jax.numpy as jnp
    from rv import sde
    drift, disp, f, b = sde.models_1d()[model]
    R = sde.Ref([f], [[b]], 1)
    fm, fC = R.mean_cov_fn(order)
    for N in ((8, 12) if kind != 'tme' else (5, 6)):
        I = np.arange(2 * N) if kind != 'tme' else np.array([2 * N - 1, 0, 2 * N - 2, 7, 1])

        def call(t, c, s, x, h):  # the same equation with the origin moved by h
            q = make(kind, lambda z: drift(z - h), lambda z: disp(z - h), t, order, N)
            return q[0](x, jnp.asarray(I)), q[1](x, jnp.asarray(I), c), q[2](x, jnp.asarray(I), c, s), q[3](x), q[4](x)

        j = jax.jit(call)
        for rep in range(3 if tier == 'quick' else 20):
            h = 0. if rep == 0 else float(rng.choice([-1, 1]) * 10. ** rng.uniform(1, 4))
            dt, mean, scale = float(10. ** rng.uniform(-3, -1)), float(rng.normal()), float(10. ** rng.uniform(-.7, .7))
            xs = np.r_[rng.normal(size=3), mean]
            mu = np.array([fm((x,), dt)[0] for x in xs])
            var = np.array([fC((x,), dt)[0, 0] for x in xs])
            if kind != 'tme' and np.any(var < 0):
                mon.skip('negative-variance')
                continue
            mon.case(model=model, kind=kind, order=order, N=N, dt=dt, mean=mean, scale=scale, origin=h)
            mon.saw(f'sde_cond_moments_{kind}', 5)
            raw, cen, sca, m, (m2, v2) = (lambda o: o)(j(dt, mean + h, scale, jnp.asarray(xs + h), h))

            def want(c, s):
                if kind == 'tme':
                    w = np.stack([R.moment_fn((int(n),), order)(([xs]), (c,), (s,), dt) + 0 * xs for n in I], axis=1)
                    a = (1 + np.abs(xs - c) + np.abs(mu - c) + 10 * N * np.sqrt(dt)) / s
                    return w, a[:, None] ** I
                g = ref.gauss_moments((mu - c) / s, var / s ** 2, 2 * N)
                a = ref.gauss_moments((np.abs(mu - c) + .1 * np.sqrt(var)) / s, var / s ** 2, 2 * N)
                return np.stack([v + 0 * xs for v in g], axis=1), np.stack([v + 0 * xs for v in a], axis=1)

            eps = 1e-11 + 1e-14 * abs(h) * N / np.min(np.sqrt(np.abs(var)) + np.abs(mu - mean) + 1e-12)
            if not eps < 1e-6:
                mon.skip('conditioning')
                continue
            for tag, got, (w, a) in (('central', cen, want(mean, 1.)), ('scaled', sca, want(mean, scale)), *([('raw', raw, want(0., 1.))] if not h else [])):
                mon.close(tag, np.asarray(got) / a, w / a, rtol=0, atol=eps, msg=f'orders up to {2 * N - 1}, origin {h:.3g} ')
            mon.close('mean', np.asarray(m) - h, mu, rtol=1e-11, atol=1e-12 + 1e-14 * abs(h))
            mon.close('mean-var', np.asarray(m2) - h, mu, rtol=1e-11, atol=1e-12 + 1e-14 * abs(h))
            mon.close('mean-var', v2, var, rtol=1e-9 + 1e-12 * abs(h), atol=1e-13 + 1e-13 * abs(h))


def high(mon, rng, tier, model, kind, order, what):
    """Expansion orders above three (expensive to compile: one function at a time)."""
    import jax
    import jax.numpy as jnp
    from rv import sde
    drift, disp, f, b = sde.models_1d()[model]
    R = sde.Ref([f], [[b]], 1)
    fm, fC = R.mean_cov_fn(order)
    I = np.array([1, 2, 0, 3]) if kind == 'normal' else np.array([2])
    fns = {}
    if what in ('all', 'mean'):
        fns['mean'] = jax.jit(lambda t, x: make(kind, drift, disp, t, order, 2)[3](x))
    if what in ('all', 'mean-var'):
        fns['mean-var'] = jax.jit(lambda t, x: make(kind, drift, disp, t, order, 2)[4](x))
    if what in ('all', 'scaled'):
        fns['scaled'] = jax.jit(lambda t, x, c, s: make(kind, drift, disp, t, order, 2)[2](x, jnp.asarray(I), c, s))
    for rep in range(3 if tier == 'quick' else 12):
        dt, mean, scale = float(10. ** rng.uniform(-.5, .2)), float(rng.normal()), float(10. ** rng.uniform(-.5, .5))
        xs = rng.uniform(.5, 2., 4)
        mu = np.array([fm((x,), dt)[0] for x in xs])
        mon.case(model=model, kind=kind, order=order, dt=dt, mean=mean, scale=scale)
        if 'mean' in fns:
            mon.close('mean', mon.api(fns['mean'], dt, jnp.asarray(xs)), mu, rtol=1e-10, atol=1e-11)
        if what == 'mean':
            continue
        var = np.array([fC((x,), dt)[0, 0] for x in xs])
        if np.any(var <= 0):
            mon.skip('negative-variance')
            continue
        if 'mean-var' in fns:
            m2, v2 = mon.api(fns['mean-var'], dt, jnp.asarray(xs))
            mon.close('mean-var', m2, mu, rtol=1e-10, atol=1e-11)
            mon.close('mean-var', v2, var, rtol=1e-8, atol=1e-10)
        if 'scaled' in fns:
            if kind == 'tme':
                want = np.stack([R.moment_fn((int(n),), order)(([xs]), (mean,), (scale,), dt) + 0 * xs for n in I], axis=1)
            else:
                g = ref.gauss_moments((mu - mean) / scale, var / scale ** 2, 4)
                want = np.stack([g[int(n)] + 0 * xs for n in I], axis=1)
            mon.close('scaled', mon.api(fns['scaled'], dt, jnp.asarray(xs), mean, scale), want, rtol=1e-9, atol=1e-9, scale=1 + np.abs(want).max() + (np.abs(mu).max() + 3) ** 3 / scale ** 3)


def exact_ou(mon, rng, tier):
    """Against the exact law of a linear SDE: the error of an order-p expansion vanishes like dt^(p+1)."""
    import jax
    import jax.numpy as jnp
    from mfs.one_dim import moments as m
    a, s = 0.7, 0.6
    drift, disp = (lambda u: -a * u), (lambda u: s)
    inds = jnp.arange(6)
    for order in (1, 2, 3):
        fns = [jax.jit(lambda x, i, t: m.sde_cond_moments_tme(drift, disp, t, order)[0](x, i)),
               jax.jit(lambda x, i, t: m.sde_cond_moments_tme_normal(drift, disp, t, order, 3)[0](x, i))]
        for rep in range(3 if tier == 'quick' else 10):
            x = float(rng.normal() + 1.)
            errs = []
            for dt in (.04, .01):
                mu, v = x * np.exp(-a * dt), s ** 2 / 2 / a * (1 - np.exp(-2 * a * dt))
                want = np.array(ref.gauss_moments(mu, v, 6))
                row = []
                for fs in fns:
                    got = np.asarray(mon.api(fs, jnp.asarray([x]), inds, dt))[0]
                    row.append(np.abs(got - want) / (1 + abs(x)) ** np.arange(6))
                errs.append(row)
            errs = np.array(errs)
            mon.case(order=order, x=x)
            bound = 60 * np.array([.04, .01])[:, None, None] ** (order + 1)
            mon.true('exact-ou', np.all(errs <= bound), f'error {errs.max(axis=(1, 2))} of order {order} exceeds {bound.ravel()}')
