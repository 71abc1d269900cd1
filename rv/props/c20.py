"""C20: resampling selects by weight: never a zero-weight sample, stratum by stratum, without bias."""
import numpy as np

RULE = ('Systematic, stratified and multinomial resampling of weight vectors of length 1..20000 (Dirichlet, one-hot, mostly zero, zero '
        'tails and heads, equal, geometric over 12 decades, float64 and float32), many keys; continuous resampling of unsorted, tied and '
        'offset samples.  Oracles: range and support of every index; consistency of the indices with one cumulative inversion per stratum; '
        'offspring bounds; first and second moments of the offspring counts over thousands of keys; the piecewise-linear Malik--Pitt '
        'distribution function.  Non-trivial: at least two positive weights.')
ASSUMPTIONS = ['weights are non-negative and sum to one', 'statistical oracles have a false-alarm probability below 1e-6 per run']
MUST_RUN = ['range', 'support', 'strata', 'offspring', 'common-shift', 'unbiased', 'variance', 'deterministic', 'jit', 'cont-range', 'cont-strata',
            'cont-permutation', 'cont-affine', 'cont-mean', 'cont-continuous', 'keys-differ', 'single-precision', 'column']

METHODS = ('systematic', 'stratified', 'multinomial')


def tasks(tier):
    out = [(f'{m}-{dt}', discrete, dict(method=m, dtype=dt)) for m in METHODS for dt in ('float64', 'float32')]
    out += [(f'{m}-statistics-{k}', stats, dict(method=m, k=k)) for m in METHODS for k in range(2 if tier == 'quick' else 6)]
    out += [(f'continuous-{k}', continuous, dict(k=k)) for k in range(2 if tier == 'quick' else 6)]
    out += [('continuous-mean', cont_mean, {})] + [(f'{m}-single', single, dict(method=m)) for m in METHODS]
    return out


def weights(rng, n, kind):
    if kind == 'dirichlet':
        w = rng.dirichlet(np.ones(n))
    elif kind == 'sparse':
        w = rng.dirichlet(np.ones(n)) * (rng.uniform(size=n) < 0.2)
        if w.sum() == 0:
            w[rng.integers(n)] = 1.
    elif kind == 'onehot':
        w = np.zeros(n)
        w[rng.choice([0, n - 1, rng.integers(n)])] = 1.
    elif kind == 'tail':  # zero tail and head
        w = np.zeros(n)
        a, b = sorted(rng.integers(0, n + 1, 2))
        b = max(b, a + 1)
        w[a:b] = rng.uniform(size=len(w[a:b]))
        if w.sum() == 0:
            w[0] = 1.
    elif kind == 'equal':
        w = np.ones(n)
    elif kind == 'two':
        w = np.zeros(n)
        w[rng.integers(n)] += 0.75
        w[rng.integers(n)] += 0.25
    else:
        w = 10. ** -rng.uniform(0, 12, n)
    return w / w.sum()


KINDS = ('dirichlet', 'sparse', 'onehot', 'tail', 'equal', 'two', 'geometric')


def discrete(mon, rng, tier, method, dtype):
    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers import resampling
    fn = getattr(resampling, method)
    sizes = [1, 2, 3, 4, 5, 7, 8, 10, 16, 33, 100, 257, 1000, 4096] + ([20000] if tier == 'quick' else [20000, 100000])
    reps = 2 if tier == 'quick' else 12
    fns = jax.jit(jax.vmap(fn, in_axes=[None, 0]))
    for n in sizes:
        for kind in KINDS:
            for _ in range(reps):
                w = jnp.asarray(weights(rng, n, kind).astype(dtype))
                K = 16 if n <= 4096 else 4
                seed = int(rng.integers(2 ** 31))
                keys = jax.random.split(jax.random.PRNGKey(seed), K)
                mon.case(nontrivial=int((w > 0).sum()) > 1, n=n, kind=kind, seed=seed, w=np.asarray(w[:4]))
                idx = np.asarray(mon.api(fns, w, keys))
                one = np.asarray(mon.api(fn, w, keys[0])) if n <= 300 else idx[0]
                mon.true('jit', np.array_equal(one, idx[0]), 'jit(vmap) and plain call disagree', one=one, idx=idx[0])
                if n <= 300:  # weights as a column, as the experiment scripts pass them
                    mon.true('column', np.array_equal(np.asarray(mon.api(fn, w[:, None], keys[0])), one), 'weights given as a column select other samples')
                w64 = np.asarray(w, np.float64)
                w64 = w64 / w64.sum()
                ok = idx.shape == (K, n) and np.issubdtype(idx.dtype, np.integer) and idx.min() >= 0 and idx.max() < n
                if not mon.true('range', ok, f'shape {idx.shape}, dtype {idx.dtype}, min {idx.min()}, max {idx.max()}'):
                    continue
                mon.true('support', np.all(w64[idx] > 0), 'a sample of zero weight was selected', bad=idx[w64[idx] <= 0][:5])
                if method == 'multinomial':
                    continue
                eps = n * (3e-6 * max(1., np.sqrt(n) / 8) if dtype == 'float32' else 1e-13 * n)
                cs = np.concatenate([[0.], np.cumsum(w64)]) * n
                for r in idx:
                    s = np.sort(r)
                    lo, hi, j = cs[s], cs[s + 1], np.arange(n)
                    mon.true('strata', np.all(hi >= j - eps) and np.all(lo <= j + 1 + eps), 'an index cannot come from its stratum', w=w64, idx=s)
                    cnt = np.bincount(r, minlength=n)
                    b = 1. if method == 'systematic' else 2.
                    mon.true('offspring', np.all(np.abs(cnt - n * w64) <= b + eps), f'offspring deviates by {np.max(np.abs(cnt - n * w64)):.6g} > {b}')
                    if method == 'systematic':
                        ulo, uhi = np.max(lo - j), np.min(hi - j)
                        mon.true('common-shift', max(ulo, 0.) <= min(uhi, 1.) + 2 * eps, f'no single shift explains the indices: [{ulo}, {uhi}]')


def stats(mon, rng, tier, method, k):
    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers import resampling
    fn = getattr(resampling, method)
    K = 20000 if tier == 'quick' else 100000
    fns = jax.jit(jax.vmap(fn, in_axes=[None, 0]))
    for n in (1, 2, 5, 9, 20):
        for kind in ('dirichlet', 'sparse', 'tail', 'geometric', 'equal'):
            w = weights(rng, n, kind)
            seed = int(rng.integers(2 ** 31))
            mon.case(nontrivial=(w > 0).sum() > 1, n=n, kind=kind, seed=seed, w=w)
            idx = np.asarray(mon.api(fns, jnp.asarray(w), jax.random.split(jax.random.PRNGKey(seed), K)))
            mon.true('deterministic', np.array_equal(idx, np.asarray(fns(jnp.asarray(w), jax.random.split(jax.random.PRNGKey(seed), K)))), 'same key, different result')
            cnt = np.stack([(idx == i).sum(1) for i in range(n)], 1)
            cs = np.concatenate([[0.], np.cumsum(w)]) * n
            if method == 'multinomial':
                var = n * w * (1 - w)
            elif method == 'stratified':
                P = np.clip(np.minimum(cs[1:, None], np.arange(1, n + 1)) - np.maximum(cs[:-1, None], np.arange(n)), 0, 1)
                var = (P * (1 - P)).sum(1)
            else:
                f = n * w - np.floor(n * w)
                var = f * (1 - f)
            se = np.sqrt(np.maximum(var, 0) / K)
            z = np.abs(cnt.mean(0) - n * w)
            mon.true('unbiased', np.all(z <= 7. * se + 1e-4 * n), f'mean offspring {cnt.mean(0)} expected {n * w}')
            # variance: a loose 4th-moment bound for its standard error
            m4 = np.mean((cnt - n * w) ** 4, 0)
            sev = np.sqrt(np.maximum(m4, 1e-9) / K)
            mon.true('variance', np.all(np.abs(np.mean((cnt - n * w) ** 2, 0) - var) <= 7. * sev + 2e-3 * (1 + var)),
                     f'offspring variance {np.mean((cnt - n * w) ** 2, 0)} expected {var}')
            if n >= 5 and (w > 0).sum() >= 3 and np.any(var > 0.05):
                mon.true('keys-differ', len(np.unique(idx[:200], axis=0)) > 1, 'different keys always give one and the same selection')
                # independence across keys: lag-one correlation of the most variable count
                c = cnt[:, np.argmax(var)] - cnt[:, np.argmax(var)].mean()
                r = np.mean(c[1:] * c[:-1]) / np.mean(c * c)
                mon.true('keys-differ', abs(r) < 7. / np.sqrt(K), f'consecutive keys are correlated: {r}')


def cdf_bounds(xs, ws, q, tol):
    """Lower and upper value at q of the interpolated distribution function through (x_i, W_{i-1} + w_i / 2)."""
    c = np.cumsum(ws) - ws / 2
    lo, hi = np.empty(len(q)), np.empty(len(q))
    for i, v in enumerate(q):
        a, b = v - tol, v + tol
        lo[i] = 0. if a <= xs[0] else np.interp(a, xs, c) if a < xs[-1] else c[-1]
        hi[i] = 1. if b >= xs[-1] else np.interp(b, xs, c) if b > xs[0] else c[0]
    return lo, hi


def continuous(mon, rng, tier, k):
    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers.resampling import continuous_resampling
    for n in (1, 2, 3, 5, 10, 50, 300, 5000):
        for kind in ('dirichlet', 'sparse', 'onehot', 'equal', 'tail', 'geometric'):
            for _ in range(1 if n > 300 else 2 if tier == 'quick' else 10):
                w = weights(rng, n, kind)
                off, sc = float(rng.choice([0., 5., -100.])), float(10. ** rng.uniform(-2, 2))
                x = off + sc * rng.normal(size=n)
                if rng.uniform() < 0.2:
                    x = np.round(x / sc, 1) * sc  # ties
                m = int(rng.choice([n, n, 1, 2 * n + 1, 17] if n < 1000 else [n, 17]))
                seed = int(rng.integers(2 ** 31))
                key = jax.random.PRNGKey(seed)
                mon.case(nontrivial=n > 1, n=n, m=m, kind=kind, seed=seed, x=x[:3])
                out = np.asarray(mon.api(continuous_resampling, jnp.asarray(x), jnp.asarray(w), m, key))
                tol = 1e-10 * (sc + abs(off))
                ok = out.shape == (m,) and np.all(np.isfinite(out)) and out.min() >= x.min() - tol and out.max() <= x.max() + tol
                if not mon.true('cont-range', ok, f'shape {out.shape}, [{out.min()}, {out.max()}] outside [{x.min()}, {x.max()}]'):
                    continue
                o = np.argsort(x, kind='stable')
                s = np.sort(out)
                if len(np.unique(x)) == n:
                    lo, hi = cdf_bounds(x[o], w[o], s, 1e-9 * (sc + abs(off)))
                    j = np.arange(m)
                    mon.true('cont-strata', np.all(hi >= j / m - 1e-9) and np.all(lo <= (j + 1) / m + 1e-9),
                             'an output is not the quantile of its stratum', x=x[o], w=w[o], out=s)
                    p = rng.permutation(n)
                    mon.close('cont-permutation', mon.api(continuous_resampling, jnp.asarray(x[p]), jnp.asarray(w[p]), m, key), out, rtol=0, atol=1e-9 * (sc + abs(off)))
                    a, b = float(rng.uniform(0.1, 10)), float(rng.normal())
                    mon.close('cont-affine', mon.api(continuous_resampling, jnp.asarray(a * x + b), jnp.asarray(w), m, key), a * out + b,
                              rtol=0, atol=1e-8 * (a * (sc + abs(off)) + abs(b)))
                if kind in ('dirichlet', 'equal') and n >= 3 and len(np.unique(x)) == n:
                    # Lipschitz in the weights: perturb and compare with the local slope bound
                    e = rng.normal(size=n) * w * 1e-7
                    e -= w * e.sum()
                    out2 = np.asarray(continuous_resampling(jnp.asarray(x), jnp.asarray(w + e), m, key))
                    c = np.cumsum(w[o]) - w[o] / 2
                    slope = np.max(np.diff(x[o]) / np.diff(c))
                    mon.true('cont-continuous', np.max(np.abs(out2 - out)) <= 4 * slope * np.sum(np.abs(e)) + tol, 'a small change of the weights makes the output jump')
                    g = np.asarray(jax.grad(lambda ww: jnp.sum(continuous_resampling(jnp.asarray(x), ww, m, key)))(jnp.asarray(w)))
                    mon.true('cont-continuous', np.all(np.isfinite(g)), f'gradient with respect to the weights not finite: {g}')


def cont_mean(mon, rng, tier):
    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers.resampling import continuous_resampling
    K = 4000 if tier == 'quick' else 40000
    for n, m in ((2, 3), (5, 5), (12, 30)):
        for kind in ('dirichlet', 'sparse', 'equal'):
            w, x = weights(rng, n, kind), rng.normal(size=n)
            seed = int(rng.integers(2 ** 31))
            mon.case(n=n, m=m, kind=kind, seed=seed, x=x[:3])
            out = np.asarray(mon.api(jax.vmap(lambda kk: continuous_resampling(jnp.asarray(x), jnp.asarray(w), m, kk)), jax.random.split(jax.random.PRNGKey(seed), K)))
            o = np.argsort(x)
            u = (np.arange(200000) + 0.5) / 200000
            q = np.interp(u, np.cumsum(w[o]) - w[o] / 2, x[o])
            for p in (1, 2):
                per = np.mean(out ** p, 1)
                mon.true('cont-mean', abs(per.mean() - np.mean(q ** p)) <= 7 * per.std() / np.sqrt(K) + 1e-4, f'E[x^{p}] = {per.mean()}, expected {np.mean(q ** p)}')
            mon.true('keys-differ', len(np.unique(out[:, m // 2])) > K // 4 or n <= 2 or kind == 'sparse', 'the key is ignored')


def single(mon, rng, tier, method):
    """Default (single) precision, where a uniform draw hits the end points of [0, 1) often enough to be seen."""
    import jax
    import jax.numpy as jnp
    from jax.experimental import disable_x64
    from mfs.classical_filters_smoothers import resampling
    fn = getattr(resampling, method)
    with disable_x64():
        n, K = 10000, (3000 if tier == 'quick' else 30000)
        for kind in ('equal', 'sparse'):
            w = jnp.asarray(weights(rng, n, kind), jnp.float32)
            seed = int(rng.integers(2 ** 31))
            mon.case(method=method, n=n, K=K, kind=kind, seed=seed)

            def summary(key):
                idx = jnp.sort(fn(w, key))
                return jnp.sum(jnp.diff(idx) != 0) + 1, jnp.sum(w[idx] <= 0), jnp.min(idx), jnp.max(idx)

            distinct, zero, lo, hi = (np.asarray(v) for v in mon.api(jax.jit(lambda ks: jax.lax.map(summary, ks)), jax.random.split(jax.random.PRNGKey(seed), K)))
            mon.true('support', zero.max() == 0, f'{zero.max()} samples of zero weight were selected')
            mon.true('range', lo.min() >= 0 and hi.max() < n, 'index out of range')
            q = np.asarray(w, float) * n
            exp = {'multinomial': np.sum(1 - np.exp(-q)), 'systematic': np.sum(np.minimum(q, 1.)), 'stratified': np.sum(1 - np.exp(-q))}[method]
            bad = np.flatnonzero(distinct < 0.8 * exp)
            mon.true('single-precision', bad.size == 0, f'the selection collapses: {distinct.min()} distinct indices, about {exp:.0f} expected', keys=bad[:5])
