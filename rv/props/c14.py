"""C14: multidimensional conditional moments are those of the chosen transition approximation."""
import numpy as np

from rv import ref

RULE = ('Five SDE models (correlated linear d = 2 and 3, Lotka--Volterra with multiplicative noise, more noises than states, '
        'degenerate noise) x Euler / Normal-TME (index signature) / TME (multi-index signature), orders 1..3, random nodes (also '
        'zero and equal to the centring mean in one or all coordinates), centring means, scales, time steps, index lists in any '
        'order; plain and jit; total orders up to 9 and origins moved by up to 1e4.  Oracle: symbolic generator powers and exact Gaussian moments.  Non-trivial: total order >= 2.')
ASSUMPTIONS = ['float64']
MUST_RUN = ['raw', 'central', 'scaled', 'mean', 'mean-var', 'eager', 'consistent', 'reduces-to-1d']
MODELS = ['lin2', 'lotka', 'wide', 'degenerate', 'lin3']


def tasks(tier):
    out = []
    for m in MODELS:
        for o in (1, 2, 3) if m != 'lin3' or tier != 'quick' else (1, 2):
            if o < 3 or m == 'lin2' or tier != 'quick':
                out.append((f'tme{o}-{m}', run, dict(model=m, kind='tme', order=o)))
            out.append((f'normal{o}-{m}', run, dict(model=m, kind='normal', order=o)))
        out.append((f'euler-{m}', run, dict(model=m, kind='euler', order=1)))
    out += [(f'many-{k}{o}-{m}-{N}', many, dict(model=m, kind=k, order=o, N=N)) for k, o, m, N in (
        ('euler', 1, 'lin2', 5), ('euler', 1, 'wide', 4), ('normal', 1, 'lotka', 4), ('normal', 2, 'lin2', 5), ('euler', 1, 'lin3', 3), ('normal', 1, 'lin3', 3), ('tme', 1, 'lin2', 4))]
    out.append(('one-dim', one_dim, {}))
    return sorted(out, key=lambda t: -t[2].get('order', 3))


def make(kind, drift, disp, dt, order, mis):
    from mfs.multi_dims import moments as m
    if kind == 'euler':
        return m.sde_cond_moments_euler_maruyama(drift, disp, dt, mis)
    if kind == 'tme':
        return m.sde_cond_moments_tme(drift, disp, dt, order)
    return m.sde_cond_moments_tme_normal(drift, disp, dt, order, mis)


def run(mon, rng, tier, model, kind, order):
    import jax
    import jax.numpy as jnp
    from rv import sde
    d, drift, disp, f, b = sde.models_nd()[model]
    R = sde.Ref(f, b, d)
    fm, fC = R.mean_cov_fn(order)
    N = 2 if d == 3 or (kind == 'tme' and order >= 2) or order == 3 else 3
    mis = np.array(ref.brute_multi_indices(d, 2 * N - 1))
    if kind == 'tme' and (order == 3 or d == 3):
        mis = mis[np.sort(rng.permutation(len(mis))[:min(10, len(mis))])] if order == 3 else mis
    z = len(mis)

    def call(t, c, s, x, i):
        q = make(kind, drift, disp, t, order, mis)
        return q[0](x, i), q[1](x, i, c), q[2](x, i, c, s), q[3](x), q[4](x)

    jc = jax.jit(call)
    for rep in range(4 if tier == 'quick' else 20):
        dt = float(10. ** rng.uniform(-3, -1))
        mean = rng.normal(size=d)
        scale = 10. ** rng.uniform(-.6, .6, d)
        xs = rng.normal(size=(6, d)) * 1.2
        xs[3] = 0.
        xs[4] = mean
        xs[5, 0] = mean[0]
        perm = rng.permutation(z)
        sel = mis[perm]
        arg = jnp.asarray(sel) if kind == 'tme' else jnp.asarray(perm)
        mu = np.array([fm(tuple(x), dt) for x in xs])
        cov = np.array([fC(tuple(x), dt) for x in xs])
        mon.case(model=model, kind=kind, order=order, dt=dt, mean=mean, scale=scale, rep=rep)

        def want(c, s):
            if kind == 'tme':
                return np.stack([[float(R.moment_fn(m, order)(x, c, s, dt)) for x in xs] for m in sel], axis=1)
            return np.array([np.array(ref.nd_moment_list(list((mu[k] - c) / s), cov[k] / np.outer(s, s), sel), float) for k in range(len(xs))])

        def big(c, s):
            a = np.maximum(np.abs(xs - c), np.abs(mu - c)) / s + np.sqrt(np.abs(np.diagonal(cov, axis1=1, axis2=2))) / s + 1e-2
            e = np.array([[np.prod(a[k] ** m) + dt * np.prod(((1 + a[k]) / np.minimum(s, 1.)) ** m) for m in sel] for k in range(len(xs))])
            return e

        one, zero = np.ones(d), np.zeros(d)
        X = jnp.asarray(xs)
        eager = rep == 0 and order == 1
        if eager:
            q = mon.api(make, kind, drift, disp, dt, order, mis)
            outs = (mon.api(q[0], X, arg), mon.api(q[1], X, arg, jnp.asarray(mean)), mon.api(q[2], X, arg, jnp.asarray(mean), jnp.asarray(scale)), mon.api(q[3], X), mon.api(q[4], X))
            mon.true('eager', len(q) == 5)
        else:
            outs = mon.api(jc, dt, jnp.asarray(mean), jnp.asarray(scale), X, arg)
        mon.saw(f'{kind}-conditional-moments', 5)
        for tag, got, c, s in (('raw', outs[0], zero, one), ('central', outs[1], mean, one), ('scaled', outs[2], mean, scale)):
            w, bb = want(c, s), big(c, s)
            mon.close(tag, np.asarray(got) / bb, w / bb, rtol=0, atol=1e-9)
        mon.close('mean', outs[3], mu, rtol=1e-11, atol=1e-12)
        mon.close('mean-var', outs[4][0], mu, rtol=1e-11, atol=1e-12)
        mon.close('mean-var', outs[4][1], np.diagonal(cov, axis1=1, axis2=2), rtol=1e-9, atol=1e-13)
        tot = sel.sum(axis=1)
        for col in np.flatnonzero(tot == 0):
            mon.close('consistent', np.asarray(outs[2])[:, col], np.ones(len(xs)), rtol=0, atol=1e-12)
        for col in np.flatnonzero(tot == 1):
            ax = int(np.argmax(sel[col]))
            mon.close('consistent', np.asarray(outs[2])[:, col], (mu[:, ax] - mean[ax]) / scale[ax], rtol=1e-9, atol=1e-11)


def many(mon, rng, tier, model, kind, order, N):
    """Moments of high total order, and states far from the origin."""
    import jax
    import jax.numpy as jnp
    from rv import sde
    d, drift, disp, f, b = sde.models_nd()[model]
    R = sde.Ref(f, b, d)
    fm, fC = R.mean_cov_fn(order)
    mis = np.array(ref.brute_multi_indices(d, 2 * N - 1))
    sel = np.arange(len(mis)) if kind != 'tme' else np.r_[rng.permutation(len(mis) - 2 * N)[:4], len(mis) - 1 - rng.permutation(2 * N)[:4]]
    arg = jnp.asarray(mis[sel]) if kind == 'tme' else jnp.asarray(sel)

    def call(t, c, s, x, h):  # the same equation with the origin moved by h
        q = make(kind, lambda z: drift(z - h), lambda z: disp(z - h), t, order, mis)
        return q[0](x, arg), q[1](x, arg, c), q[2](x, arg, c, s), q[3](x), q[4](x)

    j = jax.jit(call)
    for rep in range(4 if tier == 'quick' else 20):
        h = np.zeros(d) if rep == 0 else rng.choice([-1, 1], d) * 10. ** rng.uniform(1, 4, d)
        dt, mean, scale = float(10. ** rng.uniform(-3, -1)), rng.normal(size=d), 10. ** rng.uniform(-.6, .6, d)
        xs = rng.normal(size=(4, d))
        xs[3] = mean
        mu = np.array([fm(tuple(x), dt) for x in xs])
        cov = np.array([fC(tuple(x), dt) for x in xs])
        mon.case(model=model, kind=kind, order=order, N=N, dt=dt, mean=mean, scale=scale, origin=h)
        mon.saw(f'{kind}-conditional-moments', 5)
        raw, cen, sca, m, (m2, v2) = mon.api(j, dt, mean + h, scale, jnp.asarray(xs + h), jnp.asarray(h))
        sd = np.sqrt(np.abs(np.diagonal(cov, axis1=1, axis2=2)))
        top = np.max(np.abs(h))
        eps = 1e-10 + 1e-14 * top * N
        for tag, got, c, s in (('central', cen, mean, np.ones(d)), ('scaled', sca, mean, scale), *([('raw', raw, np.zeros(d), np.ones(d))] if rep == 0 else [])):
            if kind == 'tme':
                w = np.stack([[float(R.moment_fn(k, order)(x, c, s, dt)) for x in xs] for k in mis[sel]], axis=1)
                a = (1 + np.abs(xs - c) + np.abs(mu - c) + 10 * N * np.sqrt(dt)) / s
            else:
                w = np.array([np.array(ref.nd_moment_list(list((mu[k] - c) / s), cov[k] / np.outer(s, s), mis[sel]), float) for k in range(len(xs))])
                a = (np.abs(mu - c) + np.sqrt(N) * sd + 1e-2) / s
            a = np.array([[np.prod(a[k] ** i) for i in mis[sel]] for k in range(len(xs))])
            mon.close(tag, np.asarray(got) / a, w / a, rtol=0, atol=eps * 10, msg=f'total order up to {2 * N - 1}, origin at {top:.3g} ')
        for got in (m, m2):
            mon.close('mean', np.asarray(got) - h, mu, rtol=1e-11, atol=1e-12 + 1e-14 * top)
        mon.close('mean-var', v2, sd ** 2, rtol=1e-9 + 1e-12 * top, atol=1e-13 + 1e-13 * top)


def one_dim(mon, rng, tier):
    """d = 1: the multidimensional generators reduce to the one-dimensional ones."""
    import jax.numpy as jnp
    from mfs.one_dim import moments as m1
    from rv import sde
    N = 3
    mis = np.arange(2 * N)[:, None]
    for name, (drift, disp, _, _) in sde.models_1d().items():
        for kind, order in (('euler', 1), ('tme', 2), ('normal', 2)):
            dt, mean, scale = float(10. ** rng.uniform(-3, -1)), float(rng.normal()), float(rng.uniform(.3, 2.))
            xs = rng.normal(size=4)
            mon.case(model=name, kind=kind, dt=dt, mean=mean, scale=scale)
            dmat = (lambda x: jnp.reshape(jnp.asarray(disp(x[0]), float), (1, 1)))
            nd = mon.api(make, kind, drift, dmat, dt, order, mis)
            od = m1.sde_cond_moments_euler(drift, disp, dt, N) if kind == 'euler' else m1.sde_cond_moments_tme(drift, disp, dt, order) \
                if kind == 'tme' else m1.sde_cond_moments_tme_normal(drift, disp, dt, order, N)
            arg = jnp.asarray(mis) if kind == 'tme' else jnp.arange(2 * N)
            X, I = jnp.asarray(xs), jnp.arange(2 * N)
            c, s = jnp.array([mean]), jnp.array([scale])
            if kind == 'normal' and np.any(np.asarray(od[4](X)[1]) < 0):
                mon.skip('negative-variance')
                continue
            pairs = [(mon.api(nd[0], X[:, None], arg), od[0](X, I)), (mon.api(nd[1], X[:, None], arg, c), od[1](X, I, mean)),
                     (mon.api(nd[2], X[:, None], arg, c, s), od[2](X, I, mean, scale)), (mon.api(nd[3], X[:, None])[:, 0], od[3](X)),
                     (mon.api(nd[4], X[:, None])[1][:, 0], od[4](X)[1])]
            for a, b in pairs:
                b = np.asarray(b)
                sc = np.maximum(np.max(np.abs(b), axis=0), 1e-3)
                mon.close('reduces-to-1d', np.asarray(a) / sc, b / sc, rtol=0, atol=1e-9)
