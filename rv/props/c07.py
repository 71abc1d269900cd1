"""C07: the multidimensional quadrature reproduces every supplied moment and is the product-spectral Gauss functional."""
import itertools

import numpy as np

from rv import gen, ref

RULE = ('Random laws on R^d (Gaussian mixtures, atoms, correlated and independent products, mildly shifted/scaled), d = 1..4, '
        'N = 1..4, raw / central / scaled moments, Cholesky and LDL, sorted and unsorted.  Non-trivial: Gram matrix positive '
        'definite and z >= 2 moments supplied.')
ASSUMPTIONS = ['float64', 'cases whose scaled Gram matrix has condition number above 1e10 are out of numerical reach']
MUST_RUN = ['moments', 'mass', 'functional', 'd1', 'product', 'sorted', 'cartesian', 'ldl-indefinite']

CASES = [(1, 1), (1, 2), (1, 4), (1, 6), (2, 1), (2, 2), (2, 3), (2, 4), (3, 1), (3, 2), (3, 3), (4, 2)]


def tasks(tier):
    out = []
    for d, n in CASES:
        for mode in ('raw', 'central', 'scaled'):
            out.append((f'd{d}-N{n}-{mode}', run, dict(d=d, n=n, mode=mode)))
    out += [('product-laws', product, {}), ('cartesian', cartesian, {}), ('ldl', ldl, {}), ('large', large, {})]
    return out


def law(rng, d, kind):
    if kind == 'gauss':
        return [1.], rng.normal(size=(1, d)) * .7, [ref.spd(rng, d, .2, 1.5)]
    if kind == 'mixture':
        k = int(rng.integers(2, 4))
        return rng.dirichlet(np.ones(k) * 3), rng.normal(size=(k, d)) * .9, [ref.spd(rng, d, .15, 1.) for _ in range(k)]
    if kind == 'independent':
        return [.4, .6], np.c_[rng.normal(size=(2, 1)), np.tile(rng.normal(size=(1, d - 1)), (2, 1))], \
            [np.diag(rng.uniform(.2, 1., d)) for _ in range(2)]
    # near-atoms
    k = int(rng.integers(12, 30))
    return rng.dirichlet(np.ones(k)), rng.normal(size=(k, d)) * 1.2, [np.eye(d) * .02] * k


def run(mon, rng, tier, d, n, mode):
    import jax
    import jax.numpy as jnp
    from mfs.multi_dims.quadratures import moment_quadrature_nd
    from mfs.multi_dims.multi_indices import gram_and_hankel_indices_graded_lexico
    from mfs.one_dim.quadtures import moment_quadrature
    inds = mon.api(gram_and_hankel_indices_graded_lexico, n, d)
    mis = ref.brute_multi_indices(d, 2 * n - 1)
    mi = np.array(mis)

    def call(ms, mean, scale, srt, ldl):
        kw = {} if mode == 'raw' else dict(mean=mean) if mode == 'central' else dict(mean=mean, scale=scale)
        return moment_quadrature_nd(ms, inds, sort_nodes=srt, ldl=ldl, **kw)

    fns = {}
    for srt, ldl in itertools.product((False, True), (False, True)):
        f = jax.jit(lambda a, b, c, srt=srt, ldl=ldl: call(a, b, c, srt, ldl))
        g = lambda a, b, c, f=f: f(a, b, c)
        g.__name__ = 'moment_quadrature_nd'
        fns[srt, ldl] = g
    for rep in range(4 if tier == 'quick' else 30):
        kind = ['gauss', 'mixture', 'independent', 'atoms'][rep % 4]
        ws, mus, covs = law(rng, d, kind)
        if mode != 'raw':
            sc = 10. ** rng.uniform(-1.5, 1.5, d)
            mus, covs = mus * sc + rng.normal(size=d) * 3 * sc, [c * np.outer(sc, sc) for c in covs]
        ms, mean, scale = ref.mixture_nd_moments(ws, mus, covs, d, n, mode)
        if mode == 'scaled' and rep % 3 == 2:  # any positive scale is a valid representation
            r = 10. ** rng.uniform(-.3, .3, d)
            ms, scale = ms / np.prod(r ** mi, axis=1), scale * r
        try:
            w0, x0, cond = ref.nd_rule(ms, mis, d, n)
        except np.linalg.LinAlgError:
            mon.skip('conditioning')
            continue
        if cond > 1e10:
            mon.skip('conditioning')
            continue
        mon.case(d=d, n=n, mode=mode, law=kind, ms=ms, mean=mean, scale=scale, nontrivial=len(ms) > 1)
        tol = 1e-9 + 30 * ref.EPS * cond
        s = len(ref.brute_multi_indices(d, n - 1))
        res = {}
        for key, fn in fns.items():
            w, x = (np.asarray(v) for v in mon.api(fn, jnp.asarray(ms), jnp.asarray(mean), jnp.asarray(scale)))
            res[key] = (w, x)
            mon.true('shape', w.shape == (s ** d,) and x.shape == (s ** d, d), f'{w.shape} {x.shape}')
            mon.close('mass', w.sum(), 1., rtol=1e-10, atol=tol)
            z = (x - mean) / scale
            # natural magnitude of each moment: what its summands add up to
            mag = np.array([np.dot(np.abs(w), np.prod(np.abs(z) ** m, axis=1)) for m in mi])
            got = np.array([np.dot(w, np.prod(z ** m, axis=1)) for m in mi])
            mon.close('moments', got / (mag + 1e-3), ms / (mag + 1e-3), rtol=0,
                      atol=tol + 100 * ref.EPS * np.max(np.abs(mean) / scale), msg=f'sort,ldl={key}')
            # functional: a non-polynomial integrand must see the product-spectral rule
            for g in (lambda v: np.sin(v.sum(axis=1)), lambda v: np.exp(-.3 * np.sum(v ** 2, axis=1)),
                      lambda v: np.cos(v[:, 0]) * np.sin(1 + v[:, -1])):
                mon.close('functional', np.dot(w, g(z)), np.dot(w0, g(x0)), rtol=0, atol=tol * 10 + 1e-8, scale=1.)
        # sorted: nodes form an ascending product grid
        w, x = res[True, False]
        grid = x.reshape((s,) * d + (d,))
        for i in range(d):
            ax = np.moveaxis(grid[..., i], i, 0).reshape(s, -1)
            mon.true('sorted', np.all(np.diff(ax[:, 0]) >= -1e-12 * np.max(np.abs(ax) + 1)) and
                     np.allclose(ax, ax[:, :1], rtol=1e-12, atol=1e-12), 'sorted nodes are not an ascending product grid')
        if d == 1:
            w1, x1 = moment_quadrature(jnp.asarray(ms), float(mean[0]), float(scale[0]), sort_nodes=True)
            mon.close('d1', w, w1, rtol=0, atol=tol)
            mon.close('d1', x[:, 0], x1, rtol=tol, atol=tol, scale=np.max(np.abs(np.asarray(x1))) + scale[0])


def product(mon, rng, tier):
    """Independent coordinates: expectation of a product of univariate polynomials factorises, also beyond degree 2N-1
    in total as long as each factor is integrated by a rule that is exact for it."""
    import jax.numpy as jnp
    from mfs.multi_dims.quadratures import moment_quadrature_nd
    from mfs.multi_dims.multi_indices import gram_and_hankel_indices_graded_lexico
    for d, n in ((2, 2), (2, 3), (3, 2)):
        inds = gram_and_hankel_indices_graded_lexico(n, d)
        mis = ref.brute_multi_indices(d, 2 * n - 1)
        for rep in range(4 if tier == 'quick' else 30):
            laws = [gen.measure_1d(rng, 'mixture') for _ in range(d)]
            import mpmath as mpm
            with mpm.workdps(40):
                m1 = [ref.f64(ref.mixture_raw_moments(*l, 2 * n)) for l in laws]
            ms = np.array([np.prod([m1[i][m[i]] for i in range(d)]) for m in mis])
            if ref.nd_ops(ms, mis, d, n)[1] > 1e8:
                mon.skip('conditioning')
                continue
            mon.case(d=d, n=n, ms=ms)
            w, x = (np.asarray(v) for v in mon.api(moment_quadrature_nd, jnp.asarray(ms), inds))
            # marginal: functions of one coordinate alone see that coordinate's own N-point Gauss rule up to degree 2N-1
            for i in range(d):
                got = [np.dot(w, x[:, i] ** k) for k in range(2 * n)]
                mon.close('product', got, m1[i], rtol=1e-8, atol=1e-9)


def large(mon, rng, tier):
    """Rules whose polynomial basis is large (hundreds of basis functions, ten thousands of nodes): with so many nodes the rule
    integrates smooth functions of a normal law practically exactly, so the oracle is the exact Gaussian expectation."""
    import jax
    import jax.numpy as jnp
    from mfs.multi_dims.quadratures import moment_quadrature_nd
    from mfs.multi_dims.multi_indices import gram_and_hankel_indices_graded_lexico
    for d, n in ((2, 16), (3, 5)) if tier == 'quick' else ((2, 16), (2, 12), (3, 5), (3, 6), (4, 3)):
        inds = mon.api(gram_and_hankel_indices_graded_lexico, n, d)
        mis = ref.brute_multi_indices(d, 2 * n - 1)
        g1 = [float(v) for v in ref.gauss_moments(0., 1., 2 * n)]
        ms = np.array([np.prod([g1[k] for k in m]) for m in mis])
        for ldl in (False, True):
            f = jax.jit(lambda m, a, b, ldl=ldl: moment_quadrature_nd(m, inds, a, b, ldl=ldl))
            f.__name__ = 'moment_quadrature_nd'
            for rep in range(2):
                mean, scale = rng.normal(size=d), 10. ** rng.uniform(-1, 1, d)
                mon.case(d=d, n=n, ldl=ldl, mean=mean, scale=scale)
                w, x = (np.asarray(v) for v in mon.api(f, jnp.asarray(ms), jnp.asarray(mean), jnp.asarray(scale)))
                z = (x - mean) / scale
                mon.close('mass', w.sum(), 1., rtol=0, atol=1e-7)
                a, b = rng.normal(size=d), rng.uniform(0, 6)
                a = a / np.linalg.norm(a) * .8
                tol = 1e-6 if n >= 10 else 2e-2 if n == 3 else 1e-3
                mon.close('functional', np.dot(w, np.sin(z @ a + b)), np.sin(b) * np.exp(-a @ a / 2), rtol=0, atol=tol)
                for m in mis[1:15]:
                    want = np.prod([g1[k] for k in m])
                    mon.close('moments', np.dot(w, np.prod(z ** np.array(m), axis=1)), want, rtol=0, atol=1e-6 * (1 + want))


def cartesian(mon, rng, tier):
    import jax.numpy as jnp
    from mfs.multi_dims.quadratures import nd_cartesian_prod_indices, nd_cartesian_prod, nd_cartesian_prod_2
    for d, n in [*itertools.product((1, 2, 3, 4), (1, 2, 3, 5)), (1, 300), (2, 130), (3, 20), (6, 3)]:
        want = np.array(list(itertools.product(range(n), repeat=d)))
        got = np.asarray(mon.api(nd_cartesian_prod_indices, d, n))
        mon.case(d=d, n=n, nontrivial=n > 1)
        mon.true('cartesian', got.shape == (n ** d, d) and np.array_equal(got, want), 'indices')
        x = rng.normal(size=(d, n))
        wx = np.array([[x[i, c[i]] for i in range(d)] for c in want])
        mon.true('cartesian', np.array_equal(np.asarray(mon.api(nd_cartesian_prod, jnp.asarray(x))), wx), 'values')
        mon.true('cartesian', np.array_equal(np.asarray(mon.api(nd_cartesian_prod, jnp.asarray(x), got)), wx), 'values, indices given')
        mon.true('cartesian', np.array_equal(np.asarray(mon.api(nd_cartesian_prod_2, jnp.asarray(x))), wx), 'meshgrid variant')
        # 3-D input (d, k, n): combinations of the columns, as used for eigenvectors
        k = 3
        y = rng.normal(size=(d, k, n))
        wy = np.array([[[y[i, r, c[i]] for i in range(d)] for r in range(k)] for c in want])
        gy = np.asarray(mon.api(nd_cartesian_prod, jnp.asarray(y), got))
        mon.true('cartesian', gy.shape == wy.shape and np.array_equal(gy, wy), '3D values')


def ldl(mon, rng, tier):
    """On a slightly indefinite moment matrix the LDL option must still deliver finite nodes and unit mass."""
    import jax
    import jax.numpy as jnp
    from mfs.multi_dims.quadratures import moment_quadrature_nd
    from mfs.multi_dims.multi_indices import gram_and_hankel_indices_graded_lexico
    for d, n in ((2, 2), (2, 3), (3, 2)):
        inds = gram_and_hankel_indices_graded_lexico(n, d)
        mis = ref.brute_multi_indices(d, 2 * n - 1)
        f = jax.jit(lambda m: moment_quadrature_nd(m, inds, ldl=True))
        f.__name__ = 'moment_quadrature_nd'
        for rep in range(5 if tier == 'quick' else 40):
            # a positive definite sequence whose last pivot is pushed just below zero
            ws, mus, covs = law(rng, d, 'mixture')
            ms = ref.mixture_nd_moments(ws, mus, covs, d, n, 'raw')[0]
            basis = ref.brute_multi_indices(d, n - 1)
            pos = {m: j for j, m in enumerate(mis)}
            G = np.array([[ms[pos[tuple(np.add(a, b))]] for b in basis] for a in basis])
            if np.linalg.cond(G) > 1e7:
                mon.skip('conditioning')
                continue
            pivot = G[-1, -1] - G[-1, :-1] @ np.linalg.solve(G[:-1, :-1], G[:-1, -1])
            ms[pos[tuple(np.multiply(basis[-1], 2))]] -= pivot * (1 + 10. ** rng.uniform(-4, -1))
            mon.case(d=d, n=n, ms=ms)
            w, x = (np.asarray(v) for v in mon.api(f, jnp.asarray(ms)))
            mon.true('ldl-indefinite', np.all(np.isfinite(w)) and np.all(np.isfinite(x)), 'not finite', ms=ms)
            mon.close('ldl-indefinite', w.sum(), 1., rtol=0, atol=1e-7, scale=1.)
